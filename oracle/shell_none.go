//go:build !verifrepl

package main

func caseShell(c *Case) string { return "" }
