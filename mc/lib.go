package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
)

// Doc is a parsed root document of either kind.
type Doc struct {
	d *RootDef
	x interface {
		WriteRAML(io.Writer) error
	}
}

func parseDoc(d *RootDef, text string) (*Doc, error) {
	return parseFrom(d, strings.NewReader(text))
}

func parseFrom(d *RootDef, r io.Reader) (*Doc, error) {
	if d == rootAPI {
		a, err := rparse.ParseApiDoc(r)
		if err != nil {
			if a != nil {
				return nil, fmt.Errorf("%w (and a document was returned along with the error)", errBoth{err})
			}
			return nil, err
		}
		if a == nil {
			return nil, fmt.Errorf("neither document nor error")
		}
		return &Doc{d, a}, nil
	}
	a, err := rparse.ParseLibrary(r)
	if err != nil {
		if a != nil {
			return nil, fmt.Errorf("%w (and a document was returned along with the error)", errBoth{err})
		}
		return nil, err
	}
	if a == nil {
		return nil, fmt.Errorf("neither document nor error")
	}
	return &Doc{d, a}, nil
}

type errBoth struct{ error }

func (d *Doc) snap() *Val { return snapRoot(d.d, d.x) }

func (d *Doc) write() ([]byte, error) {
	var b bytes.Buffer
	err := d.x.WriteRAML(&b)
	return b.Bytes(), err
}

// types are the types of the document.
func (d *Doc) types() raml.DataTypeMap {
	if a, ok := d.x.(raml.APISpec); ok {
		return a.Types()
	}
	return d.x.(raml.Library).Types()
}
