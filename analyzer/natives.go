package main

import (
	"encoding/hex"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// More pure library functions, applied to constants.
func init() {
	for n, f := range map[string]interface{}{
		"strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.IndexAny": strings.IndexAny,
		"strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny, "strings.IndexRune": strings.IndexRune,
		"strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle, "strings.CutPrefix": strings.CutPrefix,
		"strings.CutSuffix": strings.CutSuffix, "strings.ToValidUTF8": strings.ToValidUTF8, "strings.Clone": strings.Clone,
		"strconv.FormatBool": strconv.FormatBool, "strconv.ParseFloat": strconv.ParseFloat, "strconv.Unquote": strconv.Unquote,
		"strconv.QuoteRune": strconv.QuoteRune, "strconv.AppendInt": strconv.AppendInt, "strconv.AppendUint": strconv.AppendUint,
		"math.Ldexp": math.Ldexp, "math.Frexp": math.Frexp, "math.Modf": math.Modf, "math.Mod": math.Mod, "math.Cbrt": math.Cbrt,
		"math.Hypot": math.Hypot, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.NaN": math.NaN,
		"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.Exp": math.Exp, "math.Log1p": math.Log1p,
		"math.Expm1": math.Expm1, "math.Ilogb": math.Ilogb, "math.Logb": math.Logb, "math.RoundToEven": math.RoundToEven,
		"math.Signbit": math.Signbit, "math.Copysign": math.Copysign, "math.Dim": math.Dim, "math.FMA": math.FMA,
		"math.Remainder": math.Remainder, "math.Nextafter": math.Nextafter,
		"math/bits.LeadingZeros16": bits.LeadingZeros16, "math/bits.TrailingZeros16": bits.TrailingZeros16,
		"math/bits.OnesCount8": bits.OnesCount8, "math/bits.OnesCount16": bits.OnesCount16, "math/bits.OnesCount32": bits.OnesCount32,
		"math/bits.Add": bits.Add, "math/bits.Add32": bits.Add32, "math/bits.Sub": bits.Sub, "math/bits.Sub32": bits.Sub32,
		"math/bits.Mul": bits.Mul, "math/bits.Mul32": bits.Mul32, "math/bits.ReverseBytes": bits.ReverseBytes,
		"math/bits.ReverseBytes16": bits.ReverseBytes16, "math/bits.ReverseBytes32": bits.ReverseBytes32,
		"math/bits.ReverseBytes64": bits.ReverseBytes64, "math/bits.RotateLeft": bits.RotateLeft, "math/bits.RotateLeft8": bits.RotateLeft8,
		"math/bits.RotateLeft16": bits.RotateLeft16, "math/bits.RotateLeft32": bits.RotateLeft32,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber,
		"unicode.IsPunct": unicode.IsPunct, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
		"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
		"path.Join": path.Join, "path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs,
		"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
		"path/filepath.Ext": filepath.Ext, "path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs,
		"path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
		"encoding/hex.EncodeToString": hex.EncodeToString, "encoding/hex.DecodeString": hex.DecodeString,
	} {
		natives[n] = f
	}
}
