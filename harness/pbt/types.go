package pbt

import (
	"encoding/hex"
	"encoding/json"
)

// H is a byte slice that reads as hex in replay files.
type H []byte

// MarshalJSON implements json.Marshaler.
func (h H) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

// UnmarshalJSON implements json.Unmarshaler.
func (h *H) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	*h = d
	return nil
}
