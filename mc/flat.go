package main

// A flat in-memory copy of the committed stores.  Exploration forks this instead
// of the IAVL trees because forking and iterating it is several times cheaper;
// contents and semantics (ordered byte keys) are identical.

import (
	"bytes"
	"io"
	"sort"

	"cosmossdk.io/store/cachekv"
	"cosmossdk.io/store/cachemulti"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	capabilitytypes "github.com/cosmos/ibc-go/modules/capability/types"
)

type flatStore struct {
	keys [][]byte
	typ  storetypes.StoreType
	vals map[string][]byte
}

func newFlat(src storetypes.KVStore) *flatStore {
	f := &flatStore{vals: map[string][]byte{}, typ: src.GetStoreType()}
	it := src.Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		k := append([]byte{}, it.Key()...)
		f.keys = append(f.keys, k)
		f.vals[string(k)] = append([]byte{}, it.Value()...)
	}
	return f
}

func (f *flatStore) GetStoreType() storetypes.StoreType { return f.typ }
func (f *flatStore) CacheWrap() storetypes.CacheWrap    { return cachekv.NewStore(f) }
func (f *flatStore) CacheWrapWithTrace(io.Writer, storetypes.TraceContext) storetypes.CacheWrap {
	return f.CacheWrap()
}
func (f *flatStore) Get(k []byte) []byte {
	v, ok := f.vals[string(k)]
	if !ok {
		return nil
	}
	return v
}
func (f *flatStore) Has(k []byte) bool { _, ok := f.vals[string(k)]; return ok }
func (f *flatStore) Set(_, _ []byte)   { panic("base state is immutable") }
func (f *flatStore) Delete(_ []byte)   { panic("base state is immutable") }

type flatIter struct {
	f          *flatStore
	start, end []byte
	i, lo, hi  int
	rev        bool
}

func (f *flatStore) rng(start, end []byte) (int, int) {
	lo, hi := 0, len(f.keys)
	if start != nil {
		lo = sort.Search(len(f.keys), func(i int) bool { return bytes.Compare(f.keys[i], start) >= 0 })
	}
	if end != nil {
		hi = sort.Search(len(f.keys), func(i int) bool { return bytes.Compare(f.keys[i], end) >= 0 })
	}
	if hi < lo {
		hi = lo
	}
	return lo, hi
}

func (f *flatStore) Iterator(start, end []byte) storetypes.Iterator {
	lo, hi := f.rng(start, end)
	return &flatIter{f: f, start: start, end: end, i: lo, lo: lo, hi: hi}
}

func (f *flatStore) ReverseIterator(start, end []byte) storetypes.Iterator {
	lo, hi := f.rng(start, end)
	return &flatIter{f: f, start: start, end: end, i: hi - 1, lo: lo, hi: hi, rev: true}
}

func (it *flatIter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *flatIter) Valid() bool              { return it.i >= it.lo && it.i < it.hi }
func (it *flatIter) Next() {
	if it.rev {
		it.i--
	} else {
		it.i++
	}
}
func (it *flatIter) Key() []byte   { return it.f.keys[it.i] }
func (it *flatIter) Value() []byte { return it.f.vals[string(it.f.keys[it.i])] }
func (it *flatIter) Error() error  { return nil }
func (it *flatIter) Close() error  { return nil }

// flatten copies every store visible through ctx into flat immutable stores.
func (e *Env) flatten(ctx sdk.Context) sdk.Context {
	stores := map[storetypes.StoreKey]storetypes.CacheWrapper{}
	keys := map[string]storetypes.StoreKey{}
	all := append([]storetypes.StoreKey{}, e.App.GetStoreKeys()...)
	// the capability module's memory store is registered outside of the module wiring
	if k := e.App.GetMemKey(capabilitytypes.MemStoreKey); k != nil {
		all = append(all, k)
	}
	for _, k := range all {
		if stores[k] != nil {
			continue
		}
		stores[k] = newFlat(ctx.MultiStore().GetKVStore(k))
		keys[k.Name()] = k
	}
	ms := cachemulti.NewFromKVStore(&flatStore{vals: map[string][]byte{}}, stores, keys, nil, nil)
	return ctx.WithMultiStore(ms)
}
