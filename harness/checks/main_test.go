package checks

import (
	"fmt"
	"testing"

	"verif/harness/pbt"
)

func TestVerif(t *testing.T) { pbt.Main(t) }

func TestList(t *testing.T) {
	for _, l := range pbt.List("") {
		fmt.Println("FACET", l)
	}
}

func FuzzVerif(f *testing.F) { pbt.Fuzz(f) }
