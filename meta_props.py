prop("C05", "The editor is only ever sent to files named in the configuration",
 "A request to open a file starts the editor only when the requested path is literally the name of one of the configured sources; any other path is refused with an error, no result and no editor process. An allowed request asks the editor for a frame and then for exactly that path and, when the line number is positive, exactly that line, and it reports success exactly when both editor runs succeeded.",
 ["inputs", "configurations"], "every list of configured sources, every requested path string and line number, every outcome of the editor processes",
 "No test exercises the request; a handful of paths could not show that no other string gets through (prefixes, case, normalisation, line numbers of any size).",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_emacs/emacs.go"],
 [("allow-list scan in the visit request", "cmd/burl_backend/burl_backend.go:Visit"), ("command line construction", "pkg/burl_emacs/emacs.go:VisitFile, execEmacs")])
prop("C06", "Only org-protocol links are captured, and only through a checked editor",
 "A capture request reaches the editor only when its format is org-protocol, it carries no error and its link starts with 'org-protocol:'; then the editor is probed for org-protocol support, asked for a frame, and given exactly that link as its only extra argument, each step only after the previous one succeeded. A request carrying an error is answered with a preview without running the editor, and success is reported exactly after all three runs succeeded; every other request fails with the reply untouched.",
 ["inputs", "fault_sequences"], "every capture request (all formats, links, error values) and every sequence of editor outcomes and outputs",
 "The tests never call capture; the guarantee is over all strings a web page can supply and all editor failures.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_emacs/emacs.go"],
 [("format and error gate", "cmd/burl_backend/burl_backend.go:Capture"), ("scheme check and probe", "pkg/burl_emacs/emacs.go:OrgProtocol, CheckOrgProtocol, EnsureFrame")])
prop("C07", "Each editor run gets the configured arguments exactly; nothing shared is written",
 "Every editor process is started with the configured command, the user's arguments, the fixed arguments and then the arguments of that request, in that order and with nothing added, dropped or split. Building a command line never writes memory shared between requests, so overlapping requests cannot change each other's arguments.",
 ["inputs", "schedules", "configurations"], "every configuration of user and fixed arguments (any spare capacity), every request's arguments, every overlap of requests",
 "No test runs the editor; the interference needs two overlapping requests and spare slice capacity.",
 ["pkg/burl_emacs/emacs.go"],
 [("command line construction", "pkg/burl_emacs/emacs.go:execEmacs")],
 note="Interference is excluded by the frame condition (nothing allocated before the call is written), not by exploring schedules.")
prop("C08", "The hello exchange announces exactly what the backend will serve",
 "A hello succeeds exactly when the first org-protocol offer of the client carries a non-empty version, and the reply names org-protocol with that version; otherwise it fails and the reply is untouched. The announced capabilities are visiting and mention queries exactly when sources are configured, plus link sets exactly when they were not disabled.",
 ["inputs", "configurations"], "every list of offered formats, every configuration",
 "No test calls hello; it quantifies over all offers and configurations.",
 ["cmd/burl_backend/burl_backend.go"],
 [("offer scan and capability list", "cmd/burl_backend/burl_backend.go:Hello"), ("link set switch", "cmd/burl_backend/burl_backend.go:NewBurlBackendPtr")])
prop("C20", "Approximate matching computes the true substring edit distance",
 "The search distance between a query and a text is the smallest number of insertions, deletions, substitutions and swaps of neighbouring characters (the optimal string alignment recurrence) that turns the lower-cased query into some substring of the lower-cased text, capped at a fixed maximum. The computation never fails, whatever the two strings are, including empty ones and invalid UTF-8.",
 ["inputs"], "every pair of strings",
 "Existing tests compare a few dozen pairs; the dynamic programming recurrence with two alternating rows has to be right for all lengths and characters.",
 ["pkg/burl_fuzzy/approsearch.go"],
 [("two-row dynamic programming", "pkg/burl_fuzzy/approsearch.go:EditorDistanceRunes"), ("minimum", "pkg/burl_fuzzy/approsearch.go:MinDistance")])
prop("C25", "Captured list options replay to the same list",
 "For a list-valued option, a non-empty setting appends, an empty setting clears the defaults, and clearing after a value has been appended is refused without changing anything. After any sequence of settings, replaying the recorded modified values on a fresh option with the same defaults gives exactly the current list.",
 ["histories", "configurations"], "every default list and every sequence of settings",
 "Tests try a few sequences; the invariant must hold after every history.",
 ["pkg/burl_util/multistring_flag.go"],
 [("state machine of the option", "pkg/burl_util/multistring_flag.go:Set"), ("replayable form", "pkg/burl_util/multistring_flag.go:ModifiedValues")])
prop("C26", "Only well-formed native messaging manifests are accepted",
 "A manifest is accepted exactly when it lists either allowed origins or allowed extensions but not both, has a name, an absolute program path, and either goes to standard output or to a file whose base name is the manifest name followed by '.json' (in any case). An accepted manifest is marked as a stdio application; a rejected one is left unchanged.",
 ["inputs", "configurations"], "every combination of manifest fields",
 "Tests cover a few manifests; acceptance must be exact over all names, paths and lists.",
 ["pkg/webextensions/manifest.go"],
 [("validation", "pkg/webextensions/manifest.go:Init")])
prop("C01", "Incoming messages are cut exactly at the announced length",
 "A message starts right where the previous one ended. Its header is exactly four bytes holding the length; after it has been accepted exactly that many bytes can be read for the message and not one byte beyond, and they are handed to the decoder only after the header has been read. A length above the limit is refused, a length up to and including it is accepted, a truncated header is an error. What the decoder left unread of one message does not disturb the next one.",
 ["inputs", "histories", "fault_sequences"], "every byte stream, split into reads in any way, ending or failing anywhere; every configured limit",
 "The tests exchange a few small messages over an undisturbed pipe; lengths, leftovers, limits and truncation points are unbounded.",
 ["pkg/webextensions/frame.go", "pkg/webextensions/server.go", "pkg/webextensions/client.go"],
 [("header and limit", "pkg/webextensions/frame.go:FrameLimitedReader.ReadHeader"), ("order of header and decoding", "pkg/webextensions/server.go:serverCodec.ReadRequestHeader"), ("same for replies", "pkg/webextensions/client.go:clientCodec.ReadResponseHeader")])
prop("C02", "Each outgoing message is one frame of exactly its length",
 "A message is encoded completely before any byte of it is sent; then its exact length as four bytes and exactly its bytes are written, in that order, and success is reported only then. A message that fails to encode sends nothing, one too long for the header is refused before anything is sent, a failed write is reported, and in every case nothing of a message is left over to be sent with a later one.",
 ["inputs", "histories", "fault_sequences"], "every sequence of messages of any length, every failure of the encoder or of the stream at any byte",
 "The tests send a few small messages over a pipe that never fails.",
 ["pkg/webextensions/frame.go", "pkg/webextensions/server.go", "pkg/webextensions/client.go"],
 [("frame writing", "pkg/webextensions/frame.go:FrameBufferedWriter.WriteFrame"), ("encode, then send", "pkg/webextensions/server.go:serverCodec.WriteResponse"), ("same for requests", "pkg/webextensions/client.go:clientCodec.WriteRequest")])
prop("C03", "Closing a connection closes both directions and reports the first failure",
 "Closing always closes the incoming and the outgoing stream, each exactly once, whatever either of them reports. The error of the incoming stream is reported if there is one, else that of the outgoing stream, else the fact that output was buffered but never sent; buffered output is dropped.",
 ["fault_sequences", "histories"], "every outcome of closing either stream, any buffered output",
 "No test makes a close fail.",
 ["pkg/webextensions/frame.go"],
 [("close", "pkg/webextensions/frame.go:SplitFrameReadWriteCloser.Close"), ("wiring", "pkg/webextensions/server.go:NewServerCodecSplit")])
prop("C04", "Only published method names reach the backend",
 "A request is dispatched to a backend method only if its method name is one of the published names (hello, capture, visit, urlMentions and linkSet with their prefixes); every other name, including the Go names of the backend's methods, is turned into an unknown one. The name table is applied to every request of the running backend.",
 ["inputs", "configurations"], "every method name, every name table",
 "The tests call two mapped methods; no test tries a name that must not get through.",
 ["pkg/webextensions/server.go", "cmd/burl_backend/burl_backend.go"],
 [("mapping", "pkg/webextensions/server.go:MappedServerCodec.ReadRequestHeader"), ("name table", "cmd/burl_backend/burl_backend.go:mainWithGracefulShutdown")])
prop("C09", "linkSet answers only when enabled, within 16 prefixes, and never in part",
 "With the link set switched off, or with more than 16 prefixes in the request, linkSet fails and reads nothing. Otherwise it fails without any links when a prefix list is refused or any of the configured files cannot be opened or read, and else reports the union over all configured files, each link once, nothing left out and nothing added.",
 ["inputs", "configurations", "faults"], "every list of sources, every content and failure of the files, every request",
 "That a link set is complete or refused depends on every combination of files and on which of them fails when; no test calls linkSet.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_links/link_source.go", "pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go"],
 [("gate", "cmd/burl_backend/burl_backend.go:BurlBackend.LinkSet"), ("answer", "cmd/burl_backend/burl_backend.go:LinkSetReal"), ("union over the files", "pkg/burl_links/link_source.go:ExtractLinkSetFromFileGroup")])
prop("C18", "The link set holds exactly the links that begin with a requested prefix",
 "Every link reported by linkSet begins, character by character, with one of the requested prefixes (with a colon put after a bare scheme), whatever special characters the prefix has and wherever else a prefix occurs in the link. For Org files these are all bracket targets, angle links and plain links that do, for text files all plain links that do. An empty list, or one with an entry that is no scheme with optionally a colon and more, is refused.",
 ["inputs"], "every list of prefixes, every content of the files",
 "Prefixes from the browser are put into an expression: that quoting, grouping and anchoring hold together for all prefixes and texts is not settled by the handful in the tests.",
 ["pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go", "pkg/burl_links/link_source.go", "cmd/burl_backend/burl_backend.go"],
 [("prefixes as an expression", "pkg/burl_links/extract_org.go:MakeLinkSetBase"), ("links of an Org file", "pkg/burl_links/extract_org.go:OrgLinkSource.ExtractSet"), ("links of a text file", "pkg/burl_links/extract_txt.go:TxtLinkSource.ExtractSet")])
prop("C11", "The equivalent spellings tried for a URL are exactly the intended ones",
 "The spellings of a URL are the URL itself and what remains when a trailing '#', then any '&', then a '?', then any '/' are dropped one character at a time; for a URL starting with 'http:' or 'https:' also the same spellings with the other of the two schemes. Nothing else is tried, and no URL makes the computation fail.",
 ["inputs"], "every URL, including empty ones, repeated separators and invalid UTF-8",
 "No test covers the spellings; they depend on the run of separators at the end, which can be of any shape and length.",
 ["pkg/burl_url/url.go"],
 [("separators at the end", "pkg/burl_url/url.go:RedundantTailVariants"), ("scheme swap", "pkg/burl_url/url.go:UrlVariants")])

prop("C23", "Quoted wrapper arguments mean exactly the original argument to sh",
 "For every argument without NUL bytes, the quoted form put into the generated wrapper script is a single shell word, and a POSIX shell reading it gets exactly the bytes of the argument: nothing is expanded, split, executed, lost or added, whatever characters and in whatever locale.",
 ["inputs"], "every byte string without NUL",
 "No test quotes anything; the guarantee is over all byte strings, including quotes, newlines, control characters and invalid UTF-8.",
 ["pkg/burl_fileutil/escape_printf.go"],
 [("quoting", "pkg/burl_fileutil/escape_printf.go:EscapeShellArg")])
prop("C24", "The generated command line reproduces every setting",
 "The words written to the wrapper stand, in this order, for the log destination, the link set switch if link sets are disabled, the editor command if it is not the default, the recorded modifications of the editor arguments and of the link schemes, and every source with its kind and name in the configured order; each word is one well-formed shell word. The option names used are the ones the backend registers for exactly these settings, in the flag set it is given.",
 ["inputs", "configurations"], "every configuration: any log destination, editor, lists of arguments, schemes and sources with any names",
 "No test generates a wrapper; the guarantee is over all combinations and list lengths.",
 ["cmd/burl_backend/args.go", "pkg/burl_util/multistring_flag.go", "pkg/burl_links/flag.go"],
 [("generation", "cmd/burl_backend/args.go:AsShellCommand"), ("registration", "cmd/burl_backend/args.go:AddBackendFlags, pkg/burl_links/flag.go:AddSourceFlags")])

prop("C22", "Generated files are replaced completely or not at all, never by surprise",
 "Writing a generated file succeeds only when the path then holds exactly the new content, executable if asked for. Without force an existing file with different content is never changed. Whatever fails on the way, the file at the path is left as it was; it is only ever replaced by renaming a completely written file from the same directory, so no crash exposes a partial file. No other file is changed and no temporary file remains (unless its removal fails). With force, or when nothing exists at the path, it fails only if the operating system reported a failure.",
 ["inputs", "fault_sequences", "crash_points"], "every path, content, mode and existing file; failure of any operating system call at any point",
 "No test writes a file; the guarantee is over all existing files, content lengths and failures.",
 ["pkg/burl_fileutil/fileutil.go"],
 [("comparison with the existing file, temporary file, rename", "pkg/burl_fileutil/fileutil.go:WriteFile")])

prop("C27", "Generated wrapper and manifests match the request or nothing is written",
 "Asked to generate files, the backend refuses, having written nothing, when more than one of them goes to standard output, when a manifest is wanted of a wrapper that goes to standard output, when any setting differs from its default and no wrapper is requested, or when such a wrapper would be the backend itself. Otherwise, when it reports success, every requested file was written: the wrapper starts the backend by its absolute resolved path with words that stand for all the settings, log and source paths made absolute; each manifest names the absolute path of the wrapper if one was requested and of the backend otherwise, the requested host name if one was given, and exactly the configured extension identifiers (Firefox) or their origins (Chrome).",
 ["inputs", "configurations"], "every combination of requested files, names, extension identifiers and backend settings",
 "No test runs the installer; the refusals and the contents depend on the combination of all options.",
 ["cmd/burl_backend/install.go", "cmd/burl_backend/args.go", "pkg/burl_fileutil/fileutil.go", "pkg/webextensions/manifest.go"],
 [("refusals and generation", "cmd/burl_backend/install.go:processInstallFlags, writeManifest"), ("absolute paths", "cmd/burl_backend/args.go:FixPaths, Customized; pkg/burl_fileutil/fileutil.go:AsAbsFileName, RealPath")])

prop("C15", "Org links are indexed completely, in order and below their headings",
 "Reading an Org file records every link of every line, in the order of the file: bracket links whose target starts with a configured scheme, angle links and plain links with a configured scheme. Each is recorded once with its target, the description of a bracket link, and its line number, below exactly the headings it stands under: a heading ends all open headings of the same or a deeper level, also when levels are skipped, and each heading carries its own text and line number. With a filter exactly the links it accepts are recorded. A failure to read the file is reported.",
 ["inputs", "configurations"], "every file content, every filter, every list of scheme patterns without capture groups",
 "The tests read one small document; heading sequences, links per line and line contents are unbounded, and the bugs sit in sequences of levels nobody wrote a test for.",
 ["pkg/burl_links/extract_org.go", "pkg/burl_links/link_tree.go"],
 [("lines, headings and links", "pkg/burl_links/extract_org.go:OrgLinkSource.Extract"), ("what of a match is a link", "pkg/burl_links/extract_org.go:OrgLinkMatchIsUrl"), ("tree under construction", "pkg/burl_links/link_tree.go:TreeChildrenNode.AddLink")])
prop("C16", "Text files: every address in every word of every line is indexed, in order",
 "Reading a plain text file records, line by line, word by word and match by match, exactly the addresses found in it: what the address pattern matches in a word, unless it is empty, a scheme alone, a path alone, or a single word with nothing or only a path behind it and no scheme in front. Each record carries the matched text and the line number, there is one record for each match, in the order of the file, and with a filter exactly the accepted ones are recorded. A failure to read the file is reported.",
 ["inputs"], "every file content, every filter",
 "The test for text files reads a handful of words; the number of lines, words and matches, what the filter refuses in between and what fails while reading are unbounded.",
 ["pkg/burl_links/extract_txt.go", "pkg/burl_links/urlmatch_txt.go", "pkg/burl_links/link_tree.go"],
 [("lines, words and matches", "pkg/burl_links/extract_txt.go:TxtLinkSource.Extract"), ("what of a match is an address", "pkg/burl_links/urlmatch_txt.go:MatchIsUrl"), ("records of the tree", "pkg/burl_links/link_tree.go:TreeChildrenNode.AddLink")])
prop("C17", "Exactly the configured schemes make a link",
 "A bracket link counts exactly when a configured scheme pattern, without its trailing colon, matches everything before some colon at its start; the patterns apply one by one, each as a whole, whatever the other patterns are. Duplicate and empty entries change nothing. A list without any scheme or with a pattern that is not valid is refused and leaves the previous schemes in force as a whole. The defaults are doi, http, https and mid, and the backend serves with exactly the list its options give.",
 ["inputs", "configurations"], "every list of scheme patterns, every link target, every sequence of options",
 "Patterns are user input joined into one expression: whether alternatives, anchors and duplicates interfere depends on all lists, of which the tests try the default one.",
 ["pkg/burl_links/extract_org.go", "cmd/burl_backend/burl_backend.go"],
 [("joining patterns", "pkg/burl_links/extract_org.go:MakeSchemeReStr"), ("switching expressions", "pkg/burl_links/extract_org.go:UpdateRe"), ("test of a bracket link", "pkg/burl_links/extract_org.go:OrgLinkMatchIsUrl"), ("options in force", "cmd/burl_backend/burl_backend.go:mainWithGracefulShutdown")])
prop("C10", "Mentions are answered from the whole index or refused",
 "The first mention query with an address reads every configured file, in the configured order. If a file cannot be opened or read, or no file has a link, no query is ever answered; otherwise all queries are answered from an index with one entry for each file that has links, none left out because of the others. A query without an address fails and reads nothing, and later queries do not read again.",
 ["inputs", "configurations", "faults", "histories"], "every list of sources, every content and failure of the files, every sequence of queries",
 "Which file fails, where in the list and after how many links, is a matter of the run; no test calls urlMentions or builds an index from more than one file.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_links/link_source.go", "pkg/burl_links/link_tree.go", "pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go"],
 [("query", "cmd/burl_backend/burl_backend.go:BurlBackend.UrlMentions"), ("index, once", "cmd/burl_backend/burl_backend.go:NewBurlBackendPtr"), ("all files", "pkg/burl_links/link_source.go:ExtractLinksFromFileGroup"), ("one file", "pkg/burl_links/link_source.go:ExtractLinksFromFile")])
prop("C13", "A count limit keeps the largest parts and gives each its share",
 "With a limit on mentions, an answer is cut down as follows. The limit in force is the one of the query (8 when the query gives no options), but not below zero nor above the total. A part that may keep n mentions keeps, in their order, the n of its children with the largest totals, of equal ones the first; n is divided among those without remainder, in proportion to their totals, and each of them gets at least one. A list of links keeps, in order, the first of each address, as many as its share allows and at least one. Each part kept is cut down to exactly the share it was given; totals stay as they were.",
 ["inputs"], "every counted tree with totals below 2^31, every limit, every number of children, ties and repeated addresses",
 "The tests cut down one small tree; division with remainders, ties and repetitions are decided by arithmetic over all totals.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_links/node_count.go", "pkg/burl_links/link_tree.go"],
 [("limit of the query", "cmd/burl_backend/burl_backend.go:BurlBackend.UrlMentions"), ("descent", "pkg/burl_links/node_count.go:FilterChildrenCount"), ("division among sections", "pkg/burl_links/link_tree.go:TreeChildrenNode.LimitChildrenCount"), ("list of links", "pkg/burl_links/link_tree.go:TreeLeafNode.LimitChildrenCount")],
 note="That the answer to be cut down is a tree of counted nodes with positive totals, each with counters of its own, is assumed of CountDescendants (listed assumption).")
prop("C14", "Answering a mention query leaves the index as it was",
 "Counting the mentions of an address and limiting their number work on a copy: whatever the query and the limit, no node, list of nodes or list of links of the index that the backend keeps is changed, so that the answer to a query does not depend on the queries before it. A query that fails leaves its reply untouched.",
 ["inputs", "histories"], "every index, every address, every limit, every sequence of queries",
 "A leaked reference shows only in a later query and only for particular counts and limits; no test asks twice.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_links/link_tree.go", "pkg/burl_links/node_count.go"],
 [("query", "cmd/burl_backend/burl_backend.go:BurlBackend.UrlMentions"), ("copy with counts", "pkg/burl_links/node_count.go:CountDescendants"), ("limit", "pkg/burl_links/node_count.go:FilterChildrenCount"), ("copies of nodes", "pkg/burl_links/link_tree.go:TreeChildrenNode.Clone")])
prop("C12", "Mention totals count every matching link of the index once",
 "The total of an answer is the number of links in the index whose target is exactly one of the equivalent spellings of an address of the query, each link counted once however often its address is repeated and wherever in the tree it is; the total of every part of the answer is that of the part of the index it was copied from. Totals do not depend on the limit, and no other link is counted.",
 ["inputs"], "every index (any number, order and depth of headings and links), every list of addresses, every limit",
 "The tests count one small tree; the traversal keeps two stacks whose agreement over every shape of tree is what makes the totals right.",
 ["cmd/burl_backend/burl_backend.go", "pkg/burl_links/node_count.go", "pkg/burl_links/link_tree.go", "pkg/burl_url/url.go"],
 [("what is counted", "cmd/burl_backend/burl_backend.go:BurlBackend.UrlMentions"), ("counting", "pkg/burl_links/node_count.go:CountDescendants, DepthFirstQueue"), ("matching links of a section", "pkg/burl_links/link_tree.go:TreeLeafNode.Clone")])
