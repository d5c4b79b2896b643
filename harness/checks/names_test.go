package checks

import (
	"fmt"

	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/harness/pbt"
)

// name is an exported name for a value that goes on the wire, with the value
// that 3GPP 23.040 or 23.038 gives it.
type name struct {
	Name string
	Want int
}

func names(prop, what string, vals map[string]int, order []name) {
	pbt.Enum(prop, "names", what+" against the values the standard gives them; non-trivial: not zero", func(yield func(name) bool) {
		for _, n := range order {
			if !yield(n) {
				return
			}
		}
	}, func(n name, o *pbt.Obs) error {
		o.NTIf(n.Want != 0)
		if got, ok := vals[n.Name]; !ok || got != n.Want {
			return fmt.Errorf("%s is %#x, not %#x", n.Name, got, n.Want)
		}
		return nil
	})
}

func init() {
	names("C02", "the name of the room in a TPDU", map[string]int{"MaxUDL": int(tpdu.MaxUDL)}, []name{{"MaxUDL", 140}})
	names("C13", "the names of the languages", map[string]int{
		"Default": charset.Default, "Turkish": charset.Turkish, "Spanish": charset.Spanish,
		"Portuguese": charset.Portuguese, "Bengali": charset.Bengali, "Gujaranti": charset.Gujaranti,
		"Hindi": charset.Hindi, "Kannada": charset.Kannada, "Malayalam": charset.Malayalam,
		"Oriya": charset.Oriya, "Punjabi": charset.Punjabi, "Tamil": charset.Tamil,
		"Telugu": charset.Telugu, "Urdu": charset.Urdu,
	}, []name{
		{"Default", 0}, {"Turkish", 1}, {"Spanish", 2}, {"Portuguese", 3}, {"Bengali", 4},
		{"Gujaranti", 5}, {"Hindi", 6}, {"Kannada", 7}, {"Malayalam", 8}, {"Oriya", 9},
		{"Punjabi", 10}, {"Tamil", 11}, {"Telugu", 12}, {"Urdu", 13},
	})
	names("C15", "the names of the types of number and numbering plans", map[string]int{
		"TonUnknown": int(tpdu.TonUnknown), "TonInternational": int(tpdu.TonInternational),
		"TonNational": int(tpdu.TonNational), "TonNetworkSpecific": int(tpdu.TonNetworkSpecific),
		"TonSubscriberNumber": int(tpdu.TonSubscriberNumber), "TonAlphanumeric": int(tpdu.TonAlphanumeric),
		"TonAbbreviated": int(tpdu.TonAbbreviated), "TonExtension": int(tpdu.TonExtension),
		"NpUnknown": int(tpdu.NpUnknown), "NpISDN": int(tpdu.NpISDN), "NpData": int(tpdu.NpData),
		"NpTelex": int(tpdu.NpTelex), "NpScSpecificA": int(tpdu.NpScSpecificA),
		"NpScSpecificB": int(tpdu.NpScSpecificB), "NpNational": int(tpdu.NpNational),
		"NpPrivate": int(tpdu.NpPrivate), "NpErmes": int(tpdu.NpErmes), "NpExtension": int(tpdu.NpExtension),
	}, []name{
		{"TonUnknown", 0}, {"TonInternational", 1}, {"TonNational", 2}, {"TonNetworkSpecific", 3},
		{"TonSubscriberNumber", 4}, {"TonAlphanumeric", 5}, {"TonAbbreviated", 6}, {"TonExtension", 7},
		{"NpUnknown", 0}, {"NpISDN", 1}, {"NpData", 3}, {"NpTelex", 4}, {"NpScSpecificA", 5},
		{"NpScSpecificB", 6}, {"NpNational", 8}, {"NpPrivate", 9}, {"NpErmes", 10}, {"NpExtension", 15},
	})
	names("C17", "the names of the formats", map[string]int{
		"VpfNotPresent": int(tpdu.VpfNotPresent), "VpfEnhanced": int(tpdu.VpfEnhanced),
		"VpfRelative": int(tpdu.VpfRelative), "VpfAbsolute": int(tpdu.VpfAbsolute),
		"EvpfNotPresent": int(tpdu.EvpfNotPresent), "EvpfRelative": int(tpdu.EvpfRelative),
		"EvpfRelativeSeconds": int(tpdu.EvpfRelativeSeconds), "EvpfRelativeHHMMSS": int(tpdu.EvpfRelativeHHMMSS),
	}, []name{
		{"VpfNotPresent", 0}, {"VpfEnhanced", 1}, {"VpfRelative", 2}, {"VpfAbsolute", 3},
		{"EvpfNotPresent", 0}, {"EvpfRelative", 1}, {"EvpfRelativeSeconds", 2}, {"EvpfRelativeHHMMSS", 3},
	})
	names("C18", "the names of the alphabets and classes", map[string]int{
		"Alpha7Bit": int(tpdu.Alpha7Bit), "Alpha8Bit": int(tpdu.Alpha8Bit), "AlphaUCS2": int(tpdu.AlphaUCS2),
		"AlphaReserved": int(tpdu.AlphaReserved), "MClass0": int(tpdu.MClass0), "MClass1": int(tpdu.MClass1),
		"MClass2": int(tpdu.MClass2), "MClass3": int(tpdu.MClass3),
	}, []name{
		{"Alpha7Bit", 0}, {"Alpha8Bit", 1}, {"AlphaUCS2", 2}, {"AlphaReserved", 3},
		{"MClass0", 0}, {"MClass1", 1}, {"MClass2", 2}, {"MClass3", 3},
	})
	names("C27", "the names of the fields", map[string]int{
		"FoMTIMask": int(tpdu.FoMTIMask), "FoMTIShift": int(tpdu.FoMTIShift), "FoMMS": int(tpdu.FoMMS),
		"FoRD": int(tpdu.FoRD), "FoLP": int(tpdu.FoLP), "FoVPFMask": int(tpdu.FoVPFMask),
		"FoVPFShift": int(tpdu.FoVPFShift), "FoSRI": int(tpdu.FoSRI), "FoSRR": int(tpdu.FoSRR),
		"FoSRQ": int(tpdu.FoSRQ), "FoUDHI": int(tpdu.FoUDHI), "FoRP": int(tpdu.FoRP),
		"PiPID": int(tpdu.PiPID), "PiDCS": int(tpdu.PiDCS), "PiUDL": int(tpdu.PiUDL),
		"MtDeliver": int(tpdu.MtDeliver), "MtSubmit": int(tpdu.MtSubmit), "MtCommand": int(tpdu.MtCommand),
		"MtReserved": int(tpdu.MtReserved),
	}, []name{
		{"FoMTIMask", 3}, {"FoMTIShift", 0}, {"FoMMS", 4}, {"FoRD", 4}, {"FoLP", 8}, {"FoVPFMask", 0x18},
		{"FoVPFShift", 3}, {"FoSRI", 0x20}, {"FoSRR", 0x20}, {"FoSRQ", 0x20}, {"FoUDHI", 0x40}, {"FoRP", 0x80},
		{"PiPID", 1}, {"PiDCS", 2}, {"PiUDL", 4},
		{"MtDeliver", 0}, {"MtSubmit", 1}, {"MtCommand", 2}, {"MtReserved", 3},
	})
}
