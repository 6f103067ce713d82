package main

import "fmt"

func toStr(v any) string { return fmt.Sprint(v) }
