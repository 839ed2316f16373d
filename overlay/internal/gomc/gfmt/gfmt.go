// Package gfmt silences or captures what the code under test prints.
package gfmt

import (
	"fmt"
	"io"
	"log"
	"os"
	"vsa/internal/gomc/rt"
)

func Print(a ...any) (int, error) {
	if rt.Capturing() {
		rt.Write(fmt.Sprint(a...))
	}
	return 0, nil
}
func Printf(f string, a ...any) (int, error) {
	if rt.Capturing() {
		rt.Write(fmt.Sprintf(f, a...))
	}
	return 0, nil
}
func Println(a ...any) (int, error) {
	if rt.Capturing() {
		rt.Write(fmt.Sprintln(a...))
	}
	return 0, nil
}

func std(w io.Writer) bool { return w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr) }

func Fprint(w io.Writer, a ...any) (int, error) {
	if std(w) {
		return Print(a...)
	}
	return fmt.Fprint(w, a...)
}
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	if std(w) {
		return Printf(f, a...)
	}
	return fmt.Fprintf(w, f, a...)
}
func Fprintln(w io.Writer, a ...any) (int, error) {
	if std(w) {
		return Println(a...)
	}
	return fmt.Fprintln(w, a...)
}
func WriteString(w io.Writer, s string) (int, error) {
	if std(w) {
		return Print(s)
	}
	return io.WriteString(w, s)
}

// package log
func LogPrint(a ...any)            { Print(a...) }
func LogPrintf(f string, a ...any) { Printf(f, a...) }
func LogPrintln(a ...any)          { Println(a...) }
func Fatal(a ...any)               { rt.Exit(1, fmt.Sprint(a...)) }
func Fatalf(f string, a ...any)    { rt.Exit(1, fmt.Sprintf(f, a...)) }
func Fatalln(a ...any)             { rt.Exit(1, fmt.Sprintln(a...)) }
func Exit(code int)                { rt.Exit(code, "os.Exit") }

var _ = log.Println
