// Command sim decides one property by simulation.
package main

import "github.com/acronis/go-raml/v2/zzsim/harness/hx"

func main() { hx.Main() }
