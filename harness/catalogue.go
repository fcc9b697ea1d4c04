package main

import (
	"sort"
	"strings"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// C26: symbol tables. The quote currencies and the asset names are frozen here.
// ---------------------------------------------------------------------------

var quoteSet = func() map[string]bool {
	m := map[string]bool{}
	for _, q := range strings.Fields("BTC USDT BUSD BNB ETH TRY USDC EUR PAX BRL TUSD BIDR AUD RUB GBP BKRW NGN UAH ZAR DAI IDRT UST USDS USDP XRP VAI TRX GYEN BVND DOT DOGE") {
		m[q] = true
	}
	return m
}()

var assetNames = [3]map[string]string{
	{
		"AAVE": "Aave", "ALGO": "Algorand", "BAT": "Basic Attention Token", "BTC": "Bitcoin", "BCH": "Bitcoin Cash", "ADA": "Cardano",
		"LINK": "Chainlink", "COMP": "Compound", "ATOM": "Cosmos", "DAI": "DAI", "DASH": "Dash", "DOGE": "Dogecoin", "EOS": "EOS.IO",
		"ETH": "Ethereum", "ETC": "Ethereum Classic", "EWT": "Energy Web Token", "EWTB": "Energy Web Token Bridged", "FILE": "Filecoin",
		"FLOW": "Flow", "LTC": "Litecoin", "XLM": "Lumen", "XMR": "Monero", "NANO": "Nano", "MATIC": "Polygon", "QTUM": "Qtum",
		"OCEAN": "Ocean Token", "DOT": "Polkadot", "USDT": "Tether USD", "GRT": "The Graph", "UNI": "Uniswap", "USDC": "USD Coin",
		"XRP": "Ripple", "ZED": "ZCash",
	},
	{"USD": "United States Dollar", "EUR": "Euro"},
	{"AAPL": "Apple Inc"},
}

var lookups = [3]func(string) (market.Asset, error){market.NewCryptoAsset, market.NewForexAsset, market.NewStockAsset}
var lookupNames = [3]string{"crypto", "forex", "stock"}

func lookupCase(t *T, k int, sym string) error {
	a, err := lookups[k](sym)
	t.States++
	t.Transitions++
	t.Traces++
	t.Evals++
	name, known := assetNames[k][sym]
	if !known {
		if err == nil {
			return failf("%s symbol %q is unknown but resolves to %+v", lookupNames[k], sym, a)
		}
		if a != (market.Asset{}) {
			return failf("unknown %s symbol %q is refused but gives %+v", lookupNames[k], sym, a)
		}
		return nil
	}
	if err != nil {
		return failf("%s symbol %q is refused: %v", lookupNames[k], sym, err)
	}
	if a.Symbol != sym || a.Name != name {
		return failf("%s symbol %q resolves to %+v, expected %q", lookupNames[k], sym, a, name)
	}
	t.Outcomef("%+v", a)
	return nil
}

func init() {
	checks["C26"] = func(r *Run) {
		type pc struct{ Key string }
		keys := make([]string, 0, len(market.PairMappings))
		for k := range market.PairMappings {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		Enum(r, "pair table", func(yield func(pc) bool) {
			for _, k := range keys {
				if !yield(pc{k}) {
					return
				}
			}
		}, func(t *T, c pc) error {
			p, ok := market.PairMappings[c.Key]
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if !ok || p.Base.Symbol == "" || p.Quote.Symbol == "" || c.Key != p.Base.Symbol+p.Quote.Symbol {
				return failf("%q resolves to base %q and quote %q", c.Key, p.Base.Symbol, p.Quote.Symbol)
			}
			if !quoteSet[p.Quote.Symbol] {
				return failf("%q is split into base %q and quote %q, which is no quote currency", c.Key, p.Base.Symbol, p.Quote.Symbol)
			}
			if got := p.Symbol(""); got != c.Key {
				return failf("%q resolves to the pair %q", c.Key, got)
			}
			t.Transitions++
			t.Outcome([]byte(c.Key))
			return nil
		})
		r.bound("pair table: all %d entries", len(keys))
		n := pick(r, 4, 5)
		type sc struct{ Prefix string }
		const up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		Enum(r, "all symbols", func(yield func(sc) bool) {
			for _, a := range up {
				for _, b := range up {
					if !yield(sc{string(a) + string(b)}) {
						return
					}
				}
			}
		}, func(t *T, c sc) error {
			var rec func(s string) error
			rec = func(s string) error {
				for k := range lookups {
					if err := lookupCase(t, k, s); err != nil {
						return err
					}
				}
				if len(s) < n {
					for _, x := range up {
						if err := rec(s + string(x)); err != nil {
							return err
						}
					}
				}
				return nil
			}
			if c.Prefix[1] == 'A' {
				for k := range lookups {
					if err := lookupCase(t, k, c.Prefix[:1]); err != nil {
						return err
					}
				}
			}
			return rec(c.Prefix)
		})
		r.bound("asset lookups: every text of 1..%d capital letters in all three lookups", n)
		// near misses of every known symbol, of any table
		type mc struct{ S string }
		Enum(r, "near misses", func(yield func(mc) bool) {
			all := map[string]bool{}
			for _, tb := range assetNames {
				for s, nm := range tb {
					all[s] = true
					all[nm] = true
				}
			}
			for k, p := range market.PairMappings {
				all[k], all[p.Base.Symbol], all[p.Quote.Symbol] = true, true, true
			}
			var ss []string
			for s := range all {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			seen := map[string]bool{}
			put := func(s string) bool {
				if seen[s] {
					return true
				}
				seen[s] = true
				return yield(mc{s})
			}
			if !put("") || !put(" ") || !put("\x00") {
				return
			}
			for _, s := range ss {
				vs := []string{s, strings.ToLower(s), strings.ToLower(s[:1]) + s[1:], strings.Title(strings.ToLower(s)), s + " ", " " + s, s + "\n", s + "\x00", s + s, s[1:], s[:len(s)-1], s + "/", s + "-USD", "X" + s, s + ".P", "1" + s, s + "2"}
				isSym := false
				for _, tb := range assetNames {
					_, k := tb[s]
					isSym = isSym || k
				}
				if isSym {
					for i := 0; i <= len(s); i++ {
						for x := 33; x < 127; x++ {
							if i < len(s) {
								vs = append(vs, s[:i]+string(rune(x))+s[i+1:])
							}
							vs = append(vs, s[:i]+string(rune(x))+s[i:])
						}
						if i < len(s) {
							vs = append(vs, s[:i]+s[i+1:])
						}
					}
				}
				for _, v := range vs {
					if !put(v) {
						return
					}
				}
			}
			// two words joined
			words := []string{"PERP", "USD", "USDT", "EUR", "SPOT", "SWAP", "FUT", "LONG", "SHORT", "UP", "DOWN", "BULL", "BEAR", "2", "3L", "3S", "X", "Z", "W", "XX", "t", "f", "m", "d", "S", ".M", "0325", "210625"}
			for _, tb := range assetNames {
				for s := range tb {
					words = append(words, s)
				}
			}
			sort.Strings(words)
			for _, a := range words {
				for _, b := range words {
					for _, sep := range []string{"", "-", "/", "_", ":", ".", " ", "@"} {
						if !put(a + sep + b) {
							return
						}
					}
				}
			}
		}, func(t *T, c mc) error {
			for k := range lookups {
				if err := lookupCase(t, k, c.S); err != nil {
					return err
				}
			}
			return nil
		})
		r.bound("asset lookups: all one-character edits of every known symbol, case, space and affix variants of every table symbol, and all pairs of known symbols and usual suffixes joined in 8 ways")
		// new assets and pair symbols
		strs := []string{"", "BTC", "btc", " ", "USDT", "a/b", "%s", "%", "ü", "\x00", "-", "USD Coin"}
		type ac struct{ A, B int }
		Enum(r, "new assets", func(yield func(ac) bool) {
			for a := range strs {
				for b := range strs {
					if !yield(ac{a, b}) {
						return
					}
				}
			}
		}, func(t *T, c ac) error {
			s, n := strs[c.A], strs[c.B]
			a, err := market.NewAsset(s, n)
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if (err != nil) != (s == "" || n == "") {
				return failf("asset of symbol %q and name %q: error %v", s, n, err)
			}
			want := market.Asset{Symbol: s, Name: n}
			if err != nil {
				want = market.Asset{}
			}
			if a != want {
				return failf("asset of symbol %q and name %q is %+v", s, n, a)
			}
			return nil
		})
		seps := []string{"", "/", "-", "_", ":", " ", "%", "%s", "%d", "ü", "\x00", "BTC", "//"}
		type yc struct{ A, B, S, Alt int }
		Enum(r, "pair symbols", func(yield func(yc) bool) {
			for a := range strs {
				for b := range strs {
					for s := range seps {
						for alt := 0; alt < 4; alt++ {
							if !yield(yc{a, b, s, alt}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c yc) error {
			b, q := market.Asset{Symbol: strs[c.A]}, market.Asset{Symbol: strs[c.B]}
			if c.Alt&1 != 0 {
				b.AltSymbol, b.Name = "XBT", "base name"
			}
			if c.Alt&2 != 0 {
				q.AltSymbol, q.Name = "XQT", "quote name"
			}
			p := market.NewPair(b, q)
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if p.Base != b || p.Quote != q {
				return failf("pair of %+v and %+v is %+v", b, q, p)
			}
			want := b.Symbol + seps[c.S] + q.Symbol
			if q.Symbol == "" {
				want = b.Symbol
			}
			if got := p.Symbol(seps[c.S]); got != want {
				return failf("pair %q, %q with separator %q is written %q, expected %q", b.Symbol, q.Symbol, seps[c.S], got, want)
			}
			t.Transitions++
			if p.Base != b || p.Quote != q {
				return failf("asking for its symbol changed the pair")
			}
			return nil
		})
		r.bound("pairs: all combinations of %d symbols, %d separators and alternative names", len(strs), len(seps))
	}
}
