package c17

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"verif/harness/mon"
)

type conf struct {
	capacity uint64
	rate     float64
}

func TestProp(t *testing.T) {
	mon.Run(t, "C17", "per configuration and key pattern, many filters filled exactly to capacity are asked about keys never added; the observed rate over all of them is compared with 1.5 times the configured one; non-trivial = at least 300 false positives allowed for by the bound", func(m *mon.M) {
		confs := []conf{}
		for _, n := range []uint64{1, 2, 7, 13, 44, 100, 107, 427, 855, 1000, 3419, 6000} {
			for _, r := range []float64{0.5, 0.2, 0.1, 0.03, 0.01, 0.002} {
				confs = append(confs, conf{n, r})
			}
		}
		for _, n := range []uint64{300, 1000, 5000} {
			for _, r := range []float64{0.0005, 0.0001} {
				confs = append(confs, conf{n, r})
			}
		}
		confs = append(confs, conf{5000, 0.00001})
		for _, r := range []float64{0.3, 0.05, 0.01, 0.001} {
			confs = append(confs, conf{60000, r})
		}
		// keys(k) yields the k-th distinct key of a pattern
		patterns := map[string]func(salt uint64) func(k uint64) uint64{
			"sequential": func(s uint64) func(uint64) uint64 { return func(k uint64) uint64 { return k } },
			"offset":     func(s uint64) func(uint64) uint64 { return func(k uint64) uint64 { return s + k } },
			"stride":     func(s uint64) func(uint64) uint64 { return func(k uint64) uint64 { return k << 20 } },
			"high":       func(s uint64) func(uint64) uint64 { return func(k uint64) uint64 { return k<<40 | s>>40 } },
			"random": func(s uint64) func(uint64) uint64 {
				return func(k uint64) uint64 { k = (k + s) * 0x9E3779B97F4A7C15; k ^= k >> 31; return k * 0xD6E8FEB86659FD93 }
			},
		}
		// texts that differ late, early, in one bit or in length only
		deep := strings.Repeat("d/", 3000)
		long := strings.Repeat("https://example.com/路径/", 12)
		texts := map[string]func(salt int, k uint64) string{
			"strings":     func(salt int, k uint64) string { return fmt.Sprintf("user:%d:%d", salt, k) },
			"long prefix": func(salt int, k uint64) string { return fmt.Sprintf("%s%d/%d", long, salt, k) },
			"long suffix": func(salt int, k uint64) string { return fmt.Sprintf("%d/%d%s", k, salt, long) },
			"deep prefix": func(salt int, k uint64) string { return deep[salt%7:] + fmt.Sprint(k) },
			"binary": func(salt int, k uint64) string {
				return string(binary.LittleEndian.AppendUint64(make([]byte, salt%20), k)) + "\x00"
			},
			"lengths": func(salt int, k uint64) string { return string(make([]byte, k)) },
		}
		var few []conf // for the costlier texts
		for _, cf := range confs {
			if cf.capacity >= 100 && cf.capacity <= 3419 && cf.rate >= 0.01 {
				few = append(few, cf)
			}
		}
		for _, name := range []string{"sequential", "offset", "stride", "high", "random", "strings", "long prefix", "long suffix", "deep prefix", "binary", "lengths"} {
			p, text, confs := patterns[name], texts[name], confs
			if text != nil && name != "strings" {
				confs = few
			}
			if name == "deep prefix" {
				confs = []conf{{100, 0.1}, {427, 0.2}}
			}
			if name == "lengths" {
				confs = []conf{{100, 0.1}, {427, 0.2}}
			}
			m.Cases(name, len(confs), func(c *mon.C) {
				cf := confs[c.Idx]
				// enough questions for the statistic, spread over many filters since their seeds differ
				filters, expect := 40, 1500.0
				if cf.rate < 0.001 { // 1.5 times 300 is still eight standard deviations away
					expect = 300
				}
				if cf.capacity > 10000 {
					filters = 4
				}
				queries := int(expect/(cf.rate*float64(filters))) + 1
				if c.M.Thorough {
					filters, queries = filters*4, queries*2
				}
				if filters*(queries+int(cf.capacity)) > 1200000 && !c.M.Thorough {
					filters = min(filters, 12)
					queries = int(expect/(cf.rate*float64(filters))) + 1
				}
				fp, asked := 0, 0
				for i := 0; i < filters; i++ {
					f := bloom.New(cf.capacity, cf.rate)
					if p != nil {
						key := p(c.Uint64())
						for k := uint64(0); k < cf.capacity; k++ {
							f.Add(key(k))
						}
						for q := 0; q < queries; q++ {
							if f.Contains(key(cf.capacity + uint64(q))) {
								fp++
							}
						}
					} else {
						salt := c.IntN(1000)
						for k := uint64(0); k < cf.capacity; k++ {
							f.AddString(text(salt, k))
						}
						for q := 0; q < queries; q++ {
							if f.ContainsString(text(salt, cf.capacity+uint64(q))) {
								fp++
							}
						}
					}
					asked += queries
				}
				bound := 1.5 * cf.rate * float64(asked)
				c.Log("capacity %d rate %g: %d of %d (%.2f times the rate)", cf.capacity, cf.rate, fp, asked, float64(fp)/float64(asked)/cf.rate)
				c.M.Count("questions", asked)
				c.M.Count("false_positives", fp)
				c.M.Peak("max_percent_of_configured_rate", int(100*float64(fp)/float64(asked)/cf.rate))
				if bound >= 300 {
					c.Nontrivial()
				}
				c.Check(float64(fp) <= bound, "filters of capacity %d and rate %g, full with %s keys: %d false positives in %d questions, %.2f times the configured rate", cf.capacity, cf.rate, name, fp, asked, float64(fp)/float64(asked)/cf.rate)
			})
		}
		// filters for as many elements as they are made for
		big := []conf{{300000, 0.003}, {1 << 20, 0.01}, {2200000, 0.03}}
		if m.Thorough {
			big = append(big, conf{1 << 22, 0.01}, conf{1 << 24, 0.02}, conf{40000000, 0.05}, conf{3000000, 0.0005})
		}
		m.Cases("millions", len(big), func(c *mon.C) {
			cf := big[c.Idx]
			f := bloom.New(cf.capacity, cf.rate)
			key := patterns[mon.Pick(c.Rand, "sequential", "random", "high")](c.Uint64())
			for k := uint64(0); k < cf.capacity; k++ {
				f.Add(key(k))
			}
			asked, fp := int(1500/cf.rate), 0
			for q := 0; q < asked; q++ {
				if f.Contains(key(cf.capacity + uint64(q))) {
					fp++
				}
			}
			c.Log("capacity %d rate %g: %d of %d", cf.capacity, cf.rate, fp, asked)
			c.M.Count("questions", asked)
			c.M.Count("false_positives", fp)
			c.Nontrivial()
			c.Check(float64(fp) <= 1.5*cf.rate*float64(asked), "a filter of capacity %d and rate %g, full: %d false positives in %d questions, %.2f times the configured rate", cf.capacity, cf.rate, fp, asked, float64(fp)/float64(asked)/cf.rate)
		})
	})
}
