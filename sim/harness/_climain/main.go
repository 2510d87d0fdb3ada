// Command sim decides one property by simulation, with the command line program linked in.
package main

import (
	"github.com/acronis/go-raml/v2/zzcli"
	"github.com/acronis/go-raml/v2/zzsim/harness/hx"
)

func main() {
	hx.CLI = zzcli.Main
	hx.Main()
}
