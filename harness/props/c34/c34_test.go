package c34

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"verif/harness/fsx"
	"verif/harness/mon"
)

// reference is AES-CBC with PKCS#7 padding and the key's first block as the IV.
func reference(data, key []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	n := 16 - len(data)%16
	p := append(append([]byte(nil), data...), bytes.Repeat([]byte{byte(n)}, n)...)
	cipher.NewCBCEncrypter(b, key[:16]).CryptBlocks(p, p)
	return p
}

// raw encrypts whole blocks without padding: what a damaged or hostile message is.
func raw(blocks, key []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(blocks))
	cipher.NewCBCEncrypter(b, key[:16]).CryptBlocks(out, blocks)
	return out
}

func fill(c *mon.C, b []byte) {
	for i := range b {
		b[i] = byte(c.Uint32())
	}
}

func key(c *mon.C) []byte {
	k := make([]byte, mon.Pick(c.Rand, 16, 24, 32))
	fill(c, k)
	return k
}

// message draws a plaintext that may look like padding at its end.
func message(c *mon.C) []byte {
	n := mon.Pick(c.Rand, 0, 1, 15, 16, 17, 31, 32, 33, c.IntN(100), c.IntN(300), c.IntN(5000), 4096, 8191)
	if c.IntN(60) == 0 {
		n = mon.Pick(c.Rand, 65535, 65536, 1<<20-1, 1<<20+c.IntN(100))
	}
	b := make([]byte, n)
	fill(c, b)
	if c.IntN(3) == 0 {
		k := byte(mon.Pick(c.Rand, 0, 1, 2, 15, 16, 17, 255))
		for i := n - 1; i >= 0 && i >= n-int(k); i-- {
			b[i] = k
		}
	}
	return fsx.Dress(c, b)
}

// roomy returns a slice holding data with spare capacity, and the whole array.
func roomy(c *mon.C, data []byte) (view, all []byte) {
	before, after := c.IntN(20), c.IntN(40)
	all = make([]byte, before+len(data)+after)
	fill(c, all)
	copy(all[before:], data)
	return all[before : before+len(data)], all
}

func TestProp(t *testing.T) {
	mon.Run(t, "C34", "messages of every length around the block size, ending in bytes that look like padding, in slices with spare capacity, under all three key sizes; ciphertexts that are cut, flipped, wrongly padded or random; bad keys; concurrent calls on neighbouring slices of one buffer; every output compared with an independent AES-CBC/PKCS#7; non-trivial = a message that is not a whole number of blocks, or a refused ciphertext", func(m *mon.M) {
		m.Cases("roundtrip", m.N(1500*2), func(c *mon.C) {
			k := key(c)
			k, kall := roomy(c, k)
			p := message(c)
			p, pall := roomy(c, p)
			ksave, psave := bytes.Clone(kall), bytes.Clone(pall)
			c.Log("%d bytes, %d byte key, room for %d more", len(p), len(k), cap(p)-len(p))
			e, err := utils.AesEncrypt(p, k)
			c.Check(err == nil, "encrypting: %v", err)
			c.Check(bytes.Equal(pall, psave), "encrypting a slice of %d bytes changed the array it lies in", len(p))
			c.Check(bytes.Equal(kall, ksave), "encrypting changed the key")
			c.Check(bytes.Equal(e, reference(p, k)), "encrypting %d bytes gives %d bytes that are not AES-CBC of the padded message", len(p), len(e))
			mine := e
			c.Keep("a ciphertext", func() string { return string(mine) })
			e, eall := roomy(c, e)
			esave := bytes.Clone(eall)
			d, err := utils.AesDecrypt(e, k)
			c.Check(err == nil, "decrypting what was encrypted: %v", err)
			c.Check(bytes.Equal(d, p), "decrypting gives %d bytes that are not the %d encrypted", len(d), len(p))
			c.Check(bytes.Equal(eall, esave), "decrypting changed the array of the ciphertext")
			c.Check(bytes.Equal(kall, ksave), "decrypting changed the key")
			// what is returned is the caller's own
			for i := range d {
				d[i] ^= 0x55
			}
			c.Check(bytes.Equal(eall, esave) && bytes.Equal(pall, psave), "what was decrypted shares memory with an argument")
			c.Keep("a decrypted message", func() string { return string(d) })
			c.M.Count("round_trips", 1)
			// another key in the same place, alike in part
			switch i := c.IntN(len(k)); c.IntN(3) {
			case 0:
				k[i] ^= 1 << c.IntN(8)
			case 1:
				fill(c, k[len(k)/2:])
			case 2:
				k = k[:mon.Pick(c.Rand, 16, len(k))]
			}
			e2, err := utils.AesEncrypt(p, k)
			c.Check(err == nil && bytes.Equal(e2, reference(p, k)), "encrypting %d bytes once more with another key in the same place: %v, not AES-CBC of the padded message", len(p), err)
			d2, err := utils.AesDecrypt(e2, k)
			c.Check(err == nil && bytes.Equal(d2, p), "and back: %v", err)
			if len(p)%16 != 0 {
				c.Nontrivial()
			}
		})
		m.Cases("damaged", m.N(1500*2), func(c *mon.C) {
			k := key(c)
			var e []byte
			kind := ""
			must := false // must be refused
			switch c.IntN(6) {
			case 0:
				kind = "cut"
				e = reference(message(c), k)
				e = e[:c.IntN(len(e))]
				must = len(e)%16 != 0 || len(e) == 0
			case 1:
				kind = "extended"
				e = append(reference(message(c), k), make([]byte, 1+c.IntN(15))...)
				must = true
			case 2:
				kind = "flipped"
				e = reference(message(c), k)
				e[c.IntN(len(e))] ^= 1 << c.IntN(8)
			case 3:
				kind = "random"
				e = make([]byte, mon.Pick(c.Rand, 16, 32, 48, c.IntN(200)))
				fill(c, e)
				must = len(e)%16 != 0 || len(e) == 0
			case 4:
				kind = "another key"
				e = reference(message(c), key(c))
			default:
				b := make([]byte, 16*(1+c.IntN(4)))
				fill(c, b)
				last := mon.Pick(c.Rand, 0, 1, 2, 15, 16, 17, 18, 32, 33, 64, 128, 255)
				kind = fmt.Sprintf("padded with %d", last)
				good := c.IntN(2)
				for i := len(b) - 1; i >= 0 && i >= len(b)-last; i-- {
					b[i] = byte(last)
				}
				b[len(b)-1] = byte(last)
				if good == 0 && last > 1 { // one of the padding bytes differs
					i := len(b) - 2 - c.IntN(min(last, len(b))-1)
					b[i] ^= 1 << c.IntN(8)
					must = true
				}
				if last == 0 || last > 16 {
					must = true
				}
				e = raw(b, k)
			}
			save := bytes.Clone(e)
			c.Log("%s: %d bytes", kind, len(e))
			d, err := utils.AesDecrypt(e, k)
			c.Check(bytes.Equal(e, save), "decrypting changed the ciphertext")
			if must {
				c.Check(err != nil, "decrypting a ciphertext that is none (%s, %d bytes) gives %d bytes and no error", kind, len(e), len(d))
			}
			if err != nil {
				c.Check(len(d) == 0, "decrypting a ciphertext that is none (%s) fails (%v) and yet gives %d bytes", kind, err, len(d))
				c.M.Count("refused", 1)
				c.Nontrivial()
				return
			}
			c.Check(bytes.Equal(reference(d, k), e), "decrypting %d bytes (%s) gives %d bytes that do not encrypt to it", len(e), kind, len(d))
			c.M.Count("accepted", 1)
		})
		m.Cases("bad key", 80, func(c *mon.C) {
			n := c.Idx
			k := make([]byte, n)
			fill(c, k)
			if c.Idx == 79 {
				k, n = nil, 0
			}
			c.Log("%d byte key", n)
			p := message(c)
			e, err := utils.AesEncrypt(p, k)
			good := n == 16 || n == 24 || n == 32
			c.Check((err == nil) == good, "encrypting with a %d byte key: error %v", n, err)
			if !good {
				c.Check(len(e) == 0, "encrypting with a %d byte key gives %d bytes", n, len(e))
				e = make([]byte, 32)
			}
			_, err = utils.AesDecrypt(e, k)
			c.Check((err == nil) == good, "decrypting with a %d byte key: error %v", n, err)
		})
		m.Cases("shared buffer", m.N(60*2), func(c *mon.C) {
			// neighbouring messages in one buffer, encrypted at once, in place of
			// one another's spare capacity
			k := key(c)
			n := 2 + c.IntN(7)
			var cut []int
			total := 0
			for i := 0; i < n; i++ {
				cut = append(cut, total)
				total += c.IntN(60)
			}
			cut = append(cut, total)
			buf := make([]byte, total, total+40)
			fill(c, buf)
			save := bytes.Clone(buf)
			c.Log("%v", cut)
			var wg sync.WaitGroup
			outs := make([][]byte, n)
			ks := make([][]byte, n)
			for i := range ks {
				ks[i] = k
				if c.Idx%2 == 1 { // as many keys, some alike in their first half
					ks[i] = key(c)
					if c.IntN(2) == 0 {
						copy(ks[i], k[:16])
					}
				}
			}
			for i := 0; i < n; i++ {
				c.Go(&wg, func() {
					e, err := utils.AesEncrypt(buf[cut[i]:cut[i+1]], ks[i])
					if err != nil {
						c.Fail("encrypting: %v", err)
						return
					}
					if !bytes.Equal(e, reference(save[cut[i]:cut[i+1]], ks[i])) {
						c.Fail("encrypting beside others gives no AES-CBC of the padded message")
						return
					}
					d, err := utils.AesDecrypt(e, ks[i])
					if err != nil {
						c.Fail("decrypting: %v", err)
						return
					}
					outs[i] = d
				})
			}
			wg.Wait()
			if c.Failed() {
				return
			}
			c.Check(bytes.Equal(buf, save), "encrypting parts of a buffer changed the buffer")
			for i := range outs {
				c.Check(bytes.Equal(outs[i], save[cut[i]:cut[i+1]]), "part %d of a shared buffer comes back as other bytes", i)
			}
			c.M.Count("shared_buffer_messages", n)
			c.Nontrivial()
		})
	})
}
