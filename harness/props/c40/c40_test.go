package c40

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// encoded is base64 written out bit by bit.
func encoded(b []byte) string {
	var s strings.Builder
	for i := 0; i < len(b); i += 3 {
		v, n := uint(0), min(3, len(b)-i)
		for j := 0; j < 3; j++ {
			v <<= 8
			if j < n {
				v |= uint(b[i+j])
			}
		}
		for j := 0; j < 4; j++ {
			if j > n {
				s.WriteByte('=')
			} else {
				s.WriteByte(alpha[v>>(18-6*j)&63])
			}
		}
	}
	return s.String()
}

var bits = []string{",", "\"", "\"\"", "\n", " ", "\t", "a", "bc", "张三", ";", "'", "\\", "#", "\\.", "\xff", "é", "0", "=", "\n\n", ", \"", "\ufeff", "\x00"}

func field(c *mon.C) string {
	var s strings.Builder
	for n := c.IntN(6); n > 0; n-- {
		s.WriteString(bits[c.IntN(len(bits))])
	}
	if c.IntN(60) == 0 {
		s.WriteString(strings.Repeat("long,", 2000))
	}
	return s.String()
}

func word(c *mon.C) string {
	for {
		s := field(c)
		if utf8.ValidString(s) && len(s) < 100 {
			return mon.Pick(c.Rand, s, s, "<b>&</b>", "\u2028", "key", "")
		}
	}
}

// value draws a JSON value as a decoder represents it.
func value(c *mon.C, depth int) any {
	k := c.IntN(7)
	if depth == 0 && k >= 5 {
		k -= 5
	}
	switch k {
	case 0:
		return nil
	case 1:
		return c.IntN(2) == 0
	case 2:
		return mon.Pick(c.Rand, 0.0, 1, -1, 0.1, 1e300, -1e-300, float64(c.IntN(1000)), math.MaxFloat64, 1<<53, float64(c.Uint64()))
	case 3, 4:
		return word(c)
	case 5:
		l := make([]any, c.IntN(4))
		for i := range l {
			l[i] = value(c, depth-1)
		}
		return l
	default:
		return object(c, depth-1)
	}
}

func object(c *mon.C, depth int) map[string]any {
	o := map[string]any{}
	for n := c.IntN(5); n > 0; n-- {
		o[word(c)] = value(c, depth)
	}
	return o
}

type inner struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

func TestProp(t *testing.T) {
	mon.Run(t, "C40", "byte strings of every length modulo three, damaged encodings; sequences of CSV rows with separators, quotes, line breaks and wide characters appended to new and existing files and read back after every row; nested JSON values and integer maps; non-trivial = a row that needs quoting, a nested value, or an encoding with padding", func(m *mon.M) {
		m.Cases("base64", m.N(800*3), func(c *mon.C) {
			b := fsx.Bytes(c)
			if c.IntN(2) == 0 {
				b = fsx.Dress(c, b[:min(len(b), c.IntN(70))])
			}
			save := bytes.Clone(b)
			c.Log("%d bytes %q", len(b), b[:min(len(b), 12)])
			want := encoded(b)
			e := utils.Base64Encode(string(b))
			c.Check(e == want, "Base64Encode of %d bytes is %s, want %s", len(b), fsx.Short(e), fsx.Short(want))
			c.Check(utils.Base64EncodeToByte(b) == want, "Base64EncodeToByte of %d bytes is %s, want %s", len(b), fsx.Short(utils.Base64EncodeToByte(b)), fsx.Short(want))
			c.Check(bytes.Equal(b, save), "encoding changed the content")
			c.Check(utils.Base64DecodeToString(e) == string(b), "Base64DecodeToString does not give back %d bytes", len(b))
			d := utils.Base64Decode(e)
			c.Check(bytes.Equal(d, b), "Base64Decode does not give back %d bytes", len(b))
			for i := range d {
				d[i]++
			}
			d2 := utils.Base64DecodeToByte(e)
			c.Check(bytes.Equal(d2, b), "Base64DecodeToByte does not give back %d bytes", len(b))
			c.Keep("decoded bytes", func() string { return string(d) })
			c.Keep("decoded bytes", func() string { return string(d2) })
			c.Keep("encoded bytes", func() string { return e })
			other := field(c)
			t := utils.Base64DecodeToString(utils.Base64EncodeToByte([]byte(other)))
			c.Check(t == other, "%q comes back as %q", other, t)
			c.Keep("decoded text", func() string { return t })
			utils.Base64Decode("AAAA" + utils.Base64Encode(other))
			utils.Base64DecodeToByte(want + "!")
			fsx.In(c, func(string) {
				fsx.Write("f.png", b)
				i := utils.ImageFileToBase64("f.png")
				c.Check(i == "data:image/png;base64,"+want, "ImageFileToBase64 of %d bytes is %s", len(b), fsx.Short(i))
				c.Check(utils.ImageFileToBase64("none") == "", "ImageFileToBase64 of no file is %q", utils.ImageFileToBase64("none"))
			})
			c.M.Count("encodings", 4)
			if len(b)%3 != 0 {
				c.Nontrivial()
			}
		})
		m.Cases("damaged base64", m.N(300*3), func(c *mon.C) {
			e := []byte(base64.StdEncoding.EncodeToString(fsx.Bytes(c)))
			e = e[:min(len(e), 80)]
			for n := c.IntN(4); n > 0 && len(e) > 0; n-- {
				e[c.IntN(len(e))] = byte(c.Uint32())
			}
			e = e[:len(e)-min(len(e), c.IntN(4))]
			c.Log("%q", e)
			a, b, d := utils.Base64DecodeToString(string(e)), utils.Base64Decode(string(e)), utils.Base64DecodeToByte(string(e))
			c.Check(a == string(b) && a == string(d), "the decoders disagree on %q: %q, %q, %q", e, a, b, d)
			want, err := base64.StdEncoding.DecodeString(string(e))
			if err == nil {
				c.Check(a == string(want), "decoding %q gives %q, want %q", e, a, want)
			}
		})
		m.Cases("large base64", m.N(3), func(c *mon.C) {
			b := make([]byte, []int{1<<20 + 1, 5 << 20, 17<<20 + 2}[c.Idx%3])
			for i := range b {
				b[i] = byte(c.Uint32())
			}
			c.Log("%d bytes", len(b))
			want := encoded(b)
			c.Check(utils.Base64Encode(string(b)) == want, "Base64Encode of %d bytes is wrong", len(b))
			c.Check(utils.Base64EncodeToByte(b) == want, "Base64EncodeToByte of %d bytes is wrong", len(b))
			c.Check(utils.Base64DecodeToString(want) == string(b), "Base64DecodeToString does not give back %d bytes", len(b))
			c.Check(bytes.Equal(utils.Base64Decode(want), b), "Base64Decode does not give back %d bytes", len(b))
			c.Check(bytes.Equal(utils.Base64DecodeToByte(want), b), "Base64DecodeToByte does not give back %d bytes", len(b))
			fsx.In(c, func(string) {
				fsx.Write("f.png", b)
				c.Check(utils.ImageFileToBase64("f.png") == "data:image/png;base64,"+want, "ImageFileToBase64 of %d bytes is wrong", len(b))
			})
			c.M.Count("large_base64_bytes", len(b))
			c.Nontrivial()
		})
		m.Cases("large json", m.N(6), func(c *mon.C) {
			n := []int{5000, 66000, 150000}[c.Idx%3]
			ints := map[string]int32{}
			long := strings.Repeat(word(c), mon.Pick(c.Rand, 1, 30))
			for i := 0; i < n; i++ {
				ints[fmt.Sprint(long, i)] = int32(c.Uint32())
			}
			s := utils.MapIntToJsonString(ints)
			got := utils.JsonStringToMap(s)
			c.Log("%d entries, %d bytes", n, len(s))
			c.Check(reflect.DeepEqual(got, ints), "a map of %d entries comes back as another, of %d", n, len(got))
			// deep and wide values, and texts of megabytes
			var v any = strings.Repeat(word(c)+"<x>&", n)
			for i := 0; i < 2000; i++ {
				if i%2 == 0 {
					v = []any{v}
				} else {
					v = map[string]any{"k": v}
				}
			}
			o := map[string]any{"deep": v, "text": strings.Repeat("张\"\\", n)}
			for i := 0; i < n; i++ {
				o[fmt.Sprint(i)] = float64(i)
			}
			for i, s := range []string{utils.MapToJsonString(o), utils.Map2JsonString(o)} {
				var back any
				err := json.Unmarshal([]byte(s), &back)
				c.Check(err == nil && reflect.DeepEqual(back, any(o)), "(%d) a large map of %d entries, %d bytes, does not read back: %v", i, n, len(s), err)
			}
			c.M.Count("json_values", 3)
			c.Nontrivial()
		})
		m.Cases("large csv", m.N(3), func(c *mon.C) {
			fsx.In(c, func(string) {
				// many rows, wide rows or long fields, with a last row of ours
				var want [][]string
				var s strings.Builder
				rows, field := []int{300000, 400, 24}[c.Idx%3]+c.IntN(9), []int{20, 40 << 10, 1<<20 + 17}[c.Idx%3]
				for i := 0; i < rows; i++ {
					long := strings.Repeat(string(rune('a'+i%26)), field+c.IntN(7))
					want = append(want, []string{fmt.Sprint(i), long})
					s.WriteString(want[i][0] + "," + long + "\n")
				}
				fsx.Write("a.csv", []byte(s.String()))
				last := []string{"last \"one\"", strings.Repeat("x,\n", field)}
				err := utils.WriteCsv("a.csv", last)
				want = append(want, last)
				got := utils.ReadCsv("a.csv")
				c.Log("%d rows in %d bytes: %v", rows+1, s.Len(), err)
				c.Check(err == nil && got != nil, "a file of %d rows and %d bytes: %v, read %v", rows, s.Len(), err, got != nil)
				c.Check(len(*got) == len(want), "a file of %d rows and %d bytes reads back as %d rows", rows+1, s.Len(), len(*got))
				for i, r := range *got {
					c.Check(len(r) == 2 && r[0] == want[i][0] && r[1] == want[i][1], "row %d of %d, of %d bytes, reads back as another", i, rows+1, len(want[i][1]))
				}
				c.M.Count("large_csv_bytes", s.Len())
				c.Nontrivial()
			})
		})
		m.Cases("csv", m.N(500*3), func(c *mon.C) {
			fsx.In(c, func(string) {
				name := mon.Pick(c.Rand, "a.csv", "张.csv", "with space")
				var want [][]string
				cols := 1 + c.IntN(5)
				if c.IntN(4) == 0 { // an existing file
					var s strings.Builder
					word := mon.Pick(c.Rand, "old", "x", "")
					for i := mon.Pick(c.Rand, 1, 1, 3); i > 0; i-- {
						row := make([]string, cols)
						for j := range row {
							row[j] = fmt.Sprintf("%s%d", word, (i+j)%10)
						}
						want = append(want, row)
						s.WriteString(strings.Join(row, ",") + "\n")
					}
					old := s.String()
					switch c.IntN(4) { // as other programs end their files
					case 0:
						old = strings.TrimSuffix(old, "\n")
					case 1:
						old = strings.ReplaceAll(old, "\n", "\r\n")
					case 2:
						old = strings.TrimSuffix(strings.ReplaceAll(old, "\n", "\r\n"), "\r\n")
					}
					fsx.Write(name, []byte(old))
				}
				quoted := false
				for r, n := 0, 1+c.IntN(6); r < n; r++ {
					row := make([]string, cols)
					for j := range row {
						row[j] = field(c)
						if j == 0 && r == 0 && len(want) == 0 {
							row[j] = strings.TrimLeft(row[j], "\ufeff")
						}
						quoted = quoted || strings.ContainsAny(row[j], ",\"\n")
					}
					if c.IntN(4) == 0 { // a row of nothing is a row too
						clear(row)
					}
					save := append([]string(nil), row...)
					before, _ := os.ReadFile(name)
					err := utils.WriteCsv(name, row)
					c.Log("%q", row[:min(len(row), 2)])
					c.Check(err == nil, "writing a row: %v", err)
					c.Check(reflect.DeepEqual(row, save), "writing changed the row")
					after, _ := os.ReadFile(name)
					c.Check(bytes.HasPrefix(after, before), "writing a row changed the rows before it")
					want = append(want, save)
					got := utils.ReadCsv(name)
					c.Check(got != nil, "what was written cannot be read: %q", want)
					c.Check(reflect.DeepEqual(*got, want), "%d rows read back as %q, want %q", len(want), *got, want)
					c.Keep("rows read", func() string { return fmt.Sprintf("%q", *got) })
					again := utils.ReadCsv(name)
					(*again)[0][0] += "changed"
					c.M.Count("rows_read_back", len(want))
				}
				c.Check(fsx.Descriptors() < 60, "%d files are still open", fsx.Descriptors())
				if quoted {
					c.Nontrivial()
				}
			})
		})
		m.Cases("rewritten", m.N(60), func(c *mon.C) {
			// files whose content changes while name, length and age stay
			fsx.In(c, func(dir string) {
				p := mon.Pick(c.Rand, "f.csv", dir+"/f.csv", "./d/f.csv")
				rows, cols, width := 1+c.IntN(4), 1+c.IntN(4), 1+c.IntN(6)
				for i := 0; i < 6; i++ {
					var want [][]string
					var s strings.Builder
					for r := 0; r < rows; r++ {
						row := make([]string, cols)
						for j := range row {
							for k := 0; k < width; k++ {
								row[j] += string(rune('a' + c.IntN(26)))
							}
						}
						want = append(want, row)
						s.WriteString(strings.Join(row, ",") + "\n")
					}
					fsx.Write(p, []byte(s.String()))
					fsx.Freeze(p)
					got := utils.ReadCsv(p)
					c.Log("%q", want)
					c.Check(got != nil && reflect.DeepEqual(*got, want), "a file written the %d. time reads %v, want %q", i, got, want)
					c.Check(utils.ImageFileToBase64(p) == "data:image/png;base64,"+base64.StdEncoding.EncodeToString([]byte(s.String())), "ImageFileToBase64 of a file written the %d. time is of another content", i)
					if c.IntN(3) == 0 {
						row := make([]string, cols)
						row[0] = "last"
						c.Check(utils.WriteCsv(p, row) == nil, "writing a row")
						fsx.Freeze(p)
						want = append(want, row)
						got = utils.ReadCsv(p)
						c.Check(got != nil && reflect.DeepEqual(*got, want), "a file written the %d. time and appended to reads %v, want %q", i, got, want)
					}
				}
				os.Remove(p)
				c.Check(utils.ReadCsv(p) == nil && utils.ImageFileToBase64(p) == "", "a file that was removed is still read")
				c.M.Count("rewritten", 6)
				c.Nontrivial()
			})
		})
		m.Cases("bad csv", 8, func(c *mon.C) {
			fsx.In(c, func(string) {
				s := []string{"a,b\nc\n", "a,\"b\n", "a\"b,c\n", "", "\n\n", "a,b\r\nc,d", "\"a\"b,c\n", "dir"}[c.Idx]
				ok := []bool{false, false, false, true, true, true, false, false}[c.Idx]
				c.Log("%q", s)
				if s == "dir" {
					fsx.Must(os.Mkdir("f", 0o755))
					c.Check(utils.WriteCsv("f", []string{"a"}) != nil, "a row was written to a directory")
				} else {
					fsx.Write("f", []byte(s))
				}
				got := utils.ReadCsv("f")
				c.Check((got != nil) == ok, "reading %q gives %v", s, got)
				c.Check(utils.ReadCsv("none") == nil, "reading no file gives rows")
				c.Check(utils.WriteCsv("none/f", []string{"a"}) != nil, "a row was written to a missing directory")
			})
		})
		m.Cases("json", m.N(800*3), func(c *mon.C) {
			o := object(c, 3)
			b, _ := json.Marshal(o)
			c.Log("%s", fsx.Short(string(b)))
			var back any
			for i, s := range []string{utils.MapToJsonString(o), utils.Map2JsonString(o)} {
				c.Check(json.Unmarshal([]byte(s), &back) == nil, "no JSON: %s", fsx.Short(s))
				c.Check(reflect.DeepEqual(back, any(o)), "(%d) %s reads back as something else: %s", i, fsx.Short(string(b)), fsx.Short(s))
			}
			v := value(c, 3)
			s := utils.Map2JsonString(v)
			back = nil
			c.Check(json.Unmarshal([]byte(s), &back) == nil && reflect.DeepEqual(back, v), "%v reads back as %v", v, back)
			in := inner{c.IntN(100), word(c)}
			var out inner
			c.Check(json.Unmarshal([]byte(utils.Map2JsonString(&in)), &out) == nil && in == out, "%v reads back as %v", in, out)
			ints := map[string]int32{}
			for n := c.IntN(6); n > 0; n-- {
				ints[word(c)] = mon.Pick(c.Rand, 0, 1, -1, math.MaxInt32, math.MinInt32, int32(c.Uint32()))
			}
			got := utils.JsonStringToMap(utils.MapIntToJsonString(ints))
			c.Check(len(got) == len(ints) && (len(ints) == 0 || reflect.DeepEqual(got, ints)), "%v comes back as %v", ints, got)
			c.Keep("a map read", func() string { return fmt.Sprint(got) })
			got2 := utils.JsonStringToMap(utils.MapIntToJsonString(map[string]int32{word(c): 5}))
			c.Check(len(got2) == 1, "a map of one comes back as %v", got2)
			c.Keep("JSON text", func() string { return s })
			utils.Map2JsonString(map[string]any{"x": s})
			c.M.Count("json_values", 5)
			if len(o) > 0 {
				c.Nontrivial()
			}
		})
		m.Cases("bad json", 14, func(c *mon.C) {
			s := []string{"", "{", "null", "[]", "{\"a\":1", "{\"a\":1}x", "{'a':1}", "{\"a\":1.5}", "{\"a\":2147483648}", "{\"a\":\"1\"}", "12", "\"a\"", "{\"a\":{}}", "\xff"}[c.Idx]
			c.Log("%q", s)
			got := utils.JsonStringToMap(s)
			for k, v := range got {
				c.Check(v == 0, "%q gives %q = %d", s, k, v)
			}
			bad := []any{func() {}, make(chan int), math.NaN(), math.Inf(1), map[string]any{"a": math.NaN()}}
			for _, b := range bad {
				c.Check(utils.Map2JsonString(b) == "", "a value that has no JSON becomes %q", utils.Map2JsonString(b))
			}
			c.Check(utils.MapToJsonString(map[string]any{"f": func() {}}) == "", "a map that has no JSON becomes %q", utils.MapToJsonString(map[string]any{"f": func() {}}))
		})
	})
}
