From 1406870a52f45f425b35c5aa25b2ed7ff4394d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 01/12] fix: EditorDistanceRunes panicked on an empty word or
 pattern

---
 pkg/burl_fuzzy/approsearch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/burl_fuzzy/approsearch.go b/pkg/burl_fuzzy/approsearch.go
index f145c20..37b4a5c 100644
--- a/pkg/burl_fuzzy/approsearch.go
+++ b/pkg/burl_fuzzy/approsearch.go
@@ -55,6 +55,12 @@ func MinDistance(args ...EditorDistance) (result EditorDistance) {
 func EditorDistanceRunes(pattern []rune, word []rune) EditorDistance {
 	// fmt.Printf("%2c -----\n", word);
 
+	// An empty pattern is a substring of any word,
+	// in an empty word only the empty substring may be found.
+	if len(pattern) == 0 || len(word) == 0 {
+		return MinDistance(DeletionDistance * EditorDistance(len(pattern)))
+	}
+
 	// query may start at an arbitrary position in word so
 	// we are starting with zero distance, not from
 	//   (i + 1)*InsertionCost
-- 
2.43.0


From 927725c20af093585a2bc704451e489c2b6984fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 02/12] fix: concurrent requests shared memory of emacsclient
 arguments

---
 pkg/burl_emacs/emacs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..028c1c4 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,11 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// Do not append to UserArgs directly, its backing array
+	// would be shared by concurrent calls.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From fb03ddb040e9d8d37f1b27e66fa4b2cc5c418e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 03/12] fix: a session died when the previous frame had unread
 trailing characters

---
 pkg/webextensions/frame.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..333e6e2 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -20,6 +20,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 // Do not know if it may happen
@@ -55,8 +56,13 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 
 func (r *FrameLimitedReader) ReadHeader() error {
 	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+		// A decoder may leave insignificant trailing characters, e.g. newline.
+		if _, err := io.Copy(ioutil.Discard, r); err != nil {
+			return err
+		}
+		if r.LimitedReader.N != 0 {
+			return ErrReadBody
+		}
 	}
 	r.LimitedReader.N = 4
 	var size uint32
-- 
2.43.0


From 919bb4c9580acabf710c2b6071d1ce95e798b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:36 +0000
Subject: [PATCH 04/12] fix: refuse messages that do not fit into the frame
 size instead of corrupting the stream

---
 pkg/webextensions/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 333e6e2..b14e431 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 // Do not know if it may happen
@@ -98,6 +99,9 @@ func NewFrameBufferedWriter(w io.WriteCloser) FrameWriter {
 
 func (w *FrameBufferedWriter) WriteFrame() error {
 	defer w.Buffer.Reset()
+	if uint64(w.Buffer.Len()) > math.MaxUint32 {
+		return TooLargeError
+	}
 	size := uint32(w.Buffer.Len())
 	if err := binary.Write(w.W, NativeEndian, &size); err != nil {
 		return err
-- 
2.43.0


From 34933e68d61da1af95eb8bb9c39018c378b2f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:02 +0000
Subject: [PATCH 05/12] fix: quoting of wrapper arguments was not suitable for
 POSIX sh

---
 pkg/burl_fileutil/escape_printf.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..511e53b 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,10 @@
 
 package burl_fileutil
 
-import "os/exec"
+import "strings"
 
-// TODO avoid printf external process
+// POSIX sh quoting. printf %q is not suitable since e.g. for control
+// and non-ASCII characters it generates $'...' that dash does not support.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	return "'" + strings.Replace(arg, "'", `'\''`, -1) + "'", nil
 }
-- 
2.43.0


From 382c2f9a3186b172522468692469af3b72f8561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:19 +0000
Subject: [PATCH 06/12] fix: source options were registered in the global flag
 set instead of the given one

---
 pkg/burl_links/flag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/flag.go b/pkg/burl_links/flag.go
index a68cb56..abd3107 100644
--- a/pkg/burl_links/flag.go
+++ b/pkg/burl_links/flag.go
@@ -54,11 +54,11 @@ func AddSourceFlags(slice *MixedSrcTypeSlice, flagSet *flag.FlagSet) {
 		slice = &MixedSrcNames
 	}
 
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return TxtLinkSource(value) }),
 		"txt", "Process `FILE` as plain text file (multiple)")
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return OrgLinkSource(value) }),
 		OrgLinkSource("").Flag(), "Process `FILE` as Emacs Org Mode file (multiple)")
-- 
2.43.0


From 175f1c98a96a6a932cfe9f540c9ddb947c6d8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 07/12] fix: an existing empty file could not be replaced even
 with -force

---
 pkg/burl_fileutil/fileutil.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..08c203e 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -65,7 +66,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		defer file.Close()
 		count, err := file.Read(data)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From 131d8abad9d44b2c871164fb638fb7b7867f0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 08/12] fix: a longer file starting with the same 4096 bytes
 was taken for an identical one

---
 pkg/burl_fileutil/fileutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 08c203e..4a6da59 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -56,7 +56,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
-- 
2.43.0


From 9ad9adcaa1b59272e1ed072982e6452e5c96f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 09/12] fix: an identical but not executable wrapper was left
 not executable

---
 pkg/burl_fileutil/fileutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 4a6da59..a3053da 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -80,7 +80,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
+			if (mode&0100) != 0 && (perm&0100) == 0 {
 				if err := os.Chmod(path, perm|0500); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
-- 
2.43.0


From 9dd07d27ef55295228b45bd06545dcf425c67a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 10/12] fix: require a configured scheme at the start of
 bracket links

Alternatives were not grouped, so "^" applied to the first scheme and ":"
to the last one only, [[file:notes/http.org]] was considered as an URL.
---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..bb5f0e9 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 89d6e0a290648d0ec00749219a7a74a2312161e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 11/12] fix: keep real ancestors of Org headings when levels
 are skipped

A deeper heading brought back stale headings from another branch of the
document as its parents. If there were no such headings then nodes with nil
heading were created and attempt to marshal them as JSON caused panic, so
urlMentions crashed the backend.
---
 pkg/burl_links/extract_org.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index bb5f0e9..2fb1e61 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -127,6 +127,7 @@ func OrgLinkMatchIsUrl(match []string) *Link {
 
 func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode, error) {
 	headings := make([]*Heading, 0, 10)
+	levels := make([]int, 0, cap(headings))
 	tree := NewTreeChildrenNode(nil)
 	treeNodes := make([]*TreeChildrenNode, 1, cap(headings)+1)
 	treeNodes[0] = &tree
@@ -138,18 +139,16 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
+			parents := len(headings)
+			for parents > 0 && levels[parents-1] >= level {
+				parents--
 			}
-			headings = headings[0 : level-1]
-			if len(treeNodes) >= level {
-				treeNodes = treeNodes[0:level]
-			}
-			for i := len(headings); i < level-1; i++ {
-				headings = append(headings, nil)
+			if len(treeNodes) > parents+1 {
+				treeNodes = treeNodes[:parents+1]
 			}
 			h := &Heading{lineNo, matchHeading[2]}
-			headings = append(headings, h)
+			headings = append(headings[:parents], h)
+			levels = append(levels[:parents], level)
 		}
 		if matchArray := reLink.FindAllStringSubmatch(line, -1); matchArray != nil {
 			for _, match := range matchArray {
-- 
2.43.0


From 3723aee60b883c8fecf88d83c70c89da60e7084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 12/12] fix: accept any count limit in urlMentions queries

Negative limit, or a huge one due to overflow, caused a slice bounds panic
that terminated the backend.
---
 pkg/burl_links/node_count.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..7859d2a 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,11 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	if target < 0 {
+		target = 0
+	} else if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0

