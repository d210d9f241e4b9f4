package main

func (v *Verifier) regexTask(prop string) *Task { return nil }
