package main

import "golang.org/x/text/cases"

func foldUnicode(s string) string { return cases.Fold().String(s) }
