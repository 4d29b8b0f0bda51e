package c01

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"github.com/netsec-ethz/fpki/zzverif/vtrie"
)

// fold is the root that an audit path (leaf to root) yields for a node at the bottom of it.
func fold(ap [][]byte, key string, node []byte) []byte {
	for i, s := range ap { // from the bottom; depth of its parent:
		d := len(ap) - 1 - i
		if vtrie.Bit(key, d) {
			node = vtrie.H(s, node)
		} else {
			node = vtrie.H(node, s)
		}
	}
	return node
}

func wfPath(ap [][]byte) bool {
	if len(ap) > 256 {
		return false
	}
	for _, s := range ap {
		if len(s) != 32 && !bytes.Equal(s, []byte{0}) {
			return false
		}
	}
	return true
}

func refIncl(root []byte, ap [][]byte, key, value []byte) bool {
	return len(key) == 32 && len(value) == 32 && wfPath(ap) &&
		bytes.Equal(root, fold(ap, string(key), vtrie.H(key, value, []byte{byte(256 - len(ap))})))
}

func refNon(root []byte, ap [][]byte, key, value, pkey []byte) bool {
	if root == nil {
		return true
	}
	if len(key) != 32 || !wfPath(ap) {
		return false
	}
	if len(pkey) == 0 {
		return bytes.Equal(root, fold(ap, string(key), []byte{0}))
	}
	if bytes.Equal(key, pkey) || !refIncl(root, ap, pkey, value) {
		return false
	}
	for i := range ap {
		if vtrie.Bit(string(key), i) != vtrie.Bit(string(pkey), i) {
			return false
		}
	}
	return true
}

func compress(ap [][]byte) (bm []byte, mp [][]byte) {
	bm = make([]byte, len(ap)/8+1)
	for i, s := range ap {
		if !bytes.Equal(s, []byte{0}) {
			bm[i/8] |= 1 << uint(7-i%8)
			mp = append(mp, s)
		}
	}
	return
}

func TestVerifC01Proofs(t *testing.T) {
	vlib.Run(t, "contents of 0..12 keys; honest proofs and mutations of them (key, value, path element, length, order, proof key, short and long byte strings); verdicts compared with an independent fold; an accepted presence is a stored pair, an accepted absence names no stored key; compressed and full verdicts agree", func(h *vlib.H) {
		n := h.N(6000, 120000)
		r := h.Rng
		for c := 0; c < n && h.More(); c++ {
			kv := vtrie.Content(r, 12)
			keys := vtrie.Keys(kv)
			root := vtrie.Root(kv, keys, 0)
			tr, err := trie.NewTrie(root, common.SHA256Hash, vtrie.NewStore())
			if err != nil {
				h.Fail("setup", "%v", err)
				return
			}
			for q := 0; q < 4; q++ {
				key := vtrie.Key(r, r.Intn(5))
				if len(keys) > 0 && r.Intn(2) == 0 {
					key = keys[r.Intn(len(keys))]
				}
				ap, lk, lv, found := vtrie.Proof(kv, keys, key, 0)
				k, v, pk := []byte(key), []byte(lv), []byte(lk)
				if found {
					pk = nil
					if r.Intn(2) == 0 {
						pk = []byte(key)
					}
				}
				rt := root
				desc := ""
				for m := r.Intn(3); m > 0; m-- {
					op := r.Intn(16)
					desc += fmt.Sprint(" m", op)
					switch op {
					case 0:
						if len(k) > 0 {
							b := r.Intn(8 * len(k))
							k = append([]byte{}, k...)
							k[b/8] ^= 1 << uint(b%8)
						}
					case 1:
						v = []byte(vtrie.Val(r))
					case 2:
						if len(ap) > 0 {
							ap = append([][]byte{}, ap...)
							ap[r.Intn(len(ap))] = []byte{0}
						}
					case 3:
						if len(ap) > 0 {
							ap = ap[:len(ap)-1]
						}
					case 4:
						ap = append(append([][]byte{}, ap...), []byte{0})
					case 5:
						ap = append([][]byte{{0}}, ap...)
					case 6:
						if len(ap) > 0 {
							ap = ap[1:]
						}
					case 7:
						pk = []byte(vtrie.Key(r, r.Intn(5)))
					case 8:
						pk = k
					case 9:
						pk = nil
					case 10:
						// shift bytes between key and value
						all := append(append([]byte{}, k...), v...)
						c := r.Intn(len(all) + 1)
						k, v = all[:c], all[c:]
					case 11:
						k = k[:r.Intn(len(k)+1)]
					case 12:
						if len(ap) > 0 {
							ap = append([][]byte{}, ap...)
							i := r.Intn(len(ap))
							ap[i] = append(append([]byte{}, ap[i]...), byte(r.Intn(2)))
						}
					case 13:
						if len(keys) > 0 {
							pk = []byte(keys[r.Intn(len(keys))])
							v = []byte(kv[string(pk)])
						}
					case 14:
						if len(ap) > 1 { // split an element in two
							ap = append([][]byte{}, ap...)
							i := r.Intn(len(ap) - 1)
							j := append(append([]byte{}, ap[i]...), ap[i+1]...)
							c := r.Intn(len(j) + 1)
							ap[i], ap[i+1] = j[:c], j[c:]
						}
					case 15:
						rt = vtrie.H([]byte{byte(r.Intn(4))})
					}
				}
				in := func() string {
					return fmt.Sprintf("root %x key %x value %x proofKey %x path %x (stored: %x)%s", rt, k, v, pk, ap, keys, desc)
				}
				h.Case(fmt.Sprintf("%x%x%x%x", k, v, pk, ap))
				var gi, gn, ci, cn bool
				if !h.Try("panic", in, func() {
					gi = trie.VerifyInclusion(rt, ap, k, v)
					gn = trie.VerifyNonInclusion(rt, ap, k, v, pk)
					tr.Root = rt
					bm, mp := compress(ap)
					ci = tr.VerifyInclusionC(bm, k, v, mp, len(ap))
					cn = tr.VerifyNonInclusionC(mp, len(ap), bm, k, v, pk)
				}) {
					return
				}
				wi, wn := refIncl(rt, ap, k, v), refNon(rt, ap, k, v, pk)
				if gi != wi {
					h.Fail("inclusion", "%s: VerifyInclusion %v, reference %v", in(), gi, wi)
				}
				if gn != wn {
					h.Fail("absence", "%s: VerifyNonInclusion %v, reference %v", in(), gn, wn)
				}
				if ci != gi {
					h.Fail("compressed-inclusion", "%s: compressed %v, full %v", in(), ci, gi)
				}
				if cn != gn {
					h.Fail("compressed-absence", "%s: compressed %v, full %v", in(), cn, gn)
				}
				if root == nil || !bytes.Equal(rt, root) {
					continue
				}
				if gi && kv[string(k)] != string(v) {
					h.Fail("presence-unsound", "%s: accepted a pair that is not stored", in())
				}
				if _, ok := kv[string(k)]; gn && ok {
					h.Fail("absence-unsound", "%s: accepted the absence of a stored key", in())
				}
			}
			tr.Root = root
		}
	})
}

func TestVerifC01Malformed(t *testing.T) {
	vlib.Run(t, "arbitrary bytes as root, key, value, path, bitmap and length (negative, too long): no panic, verdicts as the independent fold", func(h *vlib.H) {
		n := h.N(20000, 300000)
		r := h.Rng
		tr, err := trie.NewTrie(nil, common.SHA256Hash, vtrie.NewStore())
		if err != nil {
			h.Fail("setup", "%v", err)
			return
		}
		bs := func() []byte {
			switch r.Intn(6) {
			case 0:
				return nil
			case 1:
				return []byte{0}
			case 2:
				return h.Bytes(r.Intn(70))
			default:
				return h.Bytes(32)
			}
		}
		for c := 0; c < n && h.More(); c++ {
			root, k, v, pk := bs(), bs(), bs(), bs()
			var ap [][]byte
			pl := r.Intn(8)
			if r.Intn(20) == 0 {
				pl = 250 + r.Intn(12)
			}
			for i := 0; i < pl; i++ {
				if r.Intn(10) == 0 {
					ap = append(ap, bs())
				} else {
					ap = append(ap, h.Bytes(32))
				}
			}
			bm := h.Bytes(r.Intn(6))
			length := r.Intn(40) - 3
			if r.Intn(20) == 0 {
				length = r.Intn(300)
				bm = h.Bytes(40)
			}
			if r.Intn(3) == 0 && len(k) == 32 && len(v) == 32 && wfPath(ap) {
				root = fold(ap, string(k), vtrie.H(k, v, []byte{byte(256 - len(ap))}))
			}
			in := func() string {
				return fmt.Sprintf("root %x key %x value %x proofKey %x path %x bitmap %x length %d", root, k, v, pk, ap, bm, length)
			}
			h.Case(in())
			if !h.Try("malformed-panic", in, func() {
				if g, w := trie.VerifyInclusion(root, ap, k, v), refIncl(root, ap, k, v); g != w {
					h.Fail("malformed-inclusion", "%s: %v, reference %v", in(), g, w)
				}
				if g, w := trie.VerifyNonInclusion(root, ap, k, v, pk), refNon(root, ap, k, v, pk); g != w {
					h.Fail("malformed-absence", "%s: %v, reference %v", in(), g, w)
				}
				tr.Root = root
				full, ok := expand(bm, ap, length)
				if g, w := tr.VerifyInclusionC(bm, k, v, ap, length), ok && refIncl(root, full, k, v); g != w {
					h.Fail("malformed-inclusionC", "%s: %v, reference %v", in(), g, w)
				}
				if g, w := tr.VerifyNonInclusionC(ap, length, bm, k, v, pk), root == nil || ok && refNon(root, full, k, v, pk); g != w {
					h.Fail("malformed-absenceC", "%s: %v, reference %v", in(), g, w)
				}
			}) {
				return
			}
		}
	})
}

func expand(bm []byte, mp [][]byte, length int) (ap [][]byte, ok bool) {
	if length < 0 || length > 256 || length > 8*len(bm) || !wfPath(mp) {
		return nil, false
	}
	j := 0
	for i := 0; i < length; i++ {
		if bm[i/8]&(1<<uint(7-i%8)) != 0 {
			if j == len(mp) {
				return nil, false
			}
			ap = append(ap, mp[j])
			j++
		} else {
			ap = append(ap, []byte{0})
		}
	}
	return ap, j == len(mp)
}

// An interior node whose left child hash begins with a zero byte and whose right child is empty has
// the same preimage as one with an empty left child: the empty subtree of the second reading "proves"
// the absence of keys that are stored below the left child.
func TestVerifC01Ambiguity(t *testing.T) {
	vlib.Run(t, "one deterministic content: a left subtree whose hash begins with a zero byte beside an empty right one, read with the empty subtree on the left", func(h *vlib.H) {
		for i := 0; i < 1<<16; i++ {
			kv := map[string]string{}
			k1 := make([]byte, 32)
			k2 := make([]byte, 32)
			k2[0] = 0x40
			k1[31], k1[30], k1[29] = 2, byte(i), byte(i>>8)
			kv[string(k1)], kv[string(k2)] = string(vtrie.H([]byte{1})), string(vtrie.H([]byte{2}))
			keys := vtrie.Keys(kv)
			left := vtrie.Root(kv, keys, 1)
			if left[0] != 0 {
				continue
			}
			root := vtrie.Root(kv, keys, 0)
			// root = H(left || 0x00) = H(0x00 || left[1:] || 0x00)
			ap := [][]byte{append(append([]byte{}, left[1:]...), 0)}
			h.Case(fmt.Sprintf("%x", k1))
			if trie.VerifyNonInclusion(root, ap, k1, nil, nil) {
				h.Fail("nonincl-defaultleaf-ambiguity", "root %x: absence of the stored key %x accepted with path %x", root, k1, ap)
			}
			return
		}
		h.Note("no content with the ambiguity found")
	})
}
