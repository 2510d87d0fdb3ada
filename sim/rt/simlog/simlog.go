// Package simlog is the log package whose Fatal functions end the task, not the process.
package simlog

import (
	"fmt"
	"io"

	"github.com/acronis/go-raml/v2/zzsim/simos"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

func fatal(s string) { panic(simrt.ExitCalled{Code: 1, Msg: s}) }

func Fatal(v ...any)                 { fatal(fmt.Sprint(v...)) }
func Fatalf(format string, v ...any) { fatal(fmt.Sprintf(format, v...)) }
func Fatalln(v ...any)               { fatal(fmt.Sprintln(v...)) }
func Print(v ...any)                 { simos.Capture(fmt.Sprintln(v...)) }
func Printf(format string, v ...any) { simos.Capture(fmt.Sprintf(format, v...) + "\n") }
func Println(v ...any)               { simos.Capture(fmt.Sprintln(v...)) }
func Output(_ int, s string) error   { simos.Capture(s + "\n"); return nil }
func SetOutput(io.Writer)            {}
