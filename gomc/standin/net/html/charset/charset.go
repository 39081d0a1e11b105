// Package charset stands in for golang.org/x/net/html/charset: UTF-8 and the
// Latin-1 family.
package charset

import (
	"bytes"
	"fmt"
	"io"
	"strings"
)

func NewReaderLabel(label string, input io.Reader) (io.Reader, error) {
	switch strings.ToLower(strings.TrimSpace(label)) {
	case "utf-8", "utf8":
		return input, nil
	case "iso-8859-1", "latin1", "windows-1252", "us-ascii":
		b, err := io.ReadAll(input)
		if err != nil {
			return nil, err
		}
		var o bytes.Buffer
		for _, c := range b {
			o.WriteRune(rune(c))
		}
		return &o, nil
	}
	return nil, fmt.Errorf("unsupported charset: %q", label)
}
