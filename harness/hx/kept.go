package hx

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/danomagnum/gologix"
)

// Keeper remembers delivered results: what was delivered stays as it is,
// whatever is done with the client afterwards.
type Keeper struct{ list []kept }

type kept struct {
	what string
	live any
	then []byte
}

// Keep remembers a result.
func (k *Keeper) Keep(what string, x any) {
	b := heldBytes(nil, x)
	if len(b) == 0 {
		return
	}
	if len(k.list) > 40 {
		k.list = k.list[1:]
	}
	k.list = append(k.list, kept{what, x, b})
}

// Changed tells of a result that is not what it was.
func (k *Keeper) Changed() string {
	for _, e := range k.list {
		if now := heldBytes(nil, e.live); !bytes.Equal(now, e.then) {
			return fmt.Sprintf("the result of an earlier call changed afterwards (%s): it was %.200x and now is %.200x", e.what, e.then, now)
		}
	}
	return ""
}

// heldBytes collects the bytes of the byte slices that make up x.
func heldBytes(b []byte, x any) []byte {
	switch x := x.(type) {
	case []byte:
		b = append(b, x...)
	case []any:
		for _, e := range x {
			b = heldBytes(b, e)
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			b = heldBytes(b, x[k])
		}
	case *gologix.CIPItem:
		if x != nil {
			b = append(b, x.Data...)
		}
	}
	return b
}
