package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	spi "github.com/trustbloc/kms-go/spi/storage"
	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/zzverif/vk"
	"pgregory.net/rapid"
)

// The model of a store: a map of values with tags.
type memEntry struct {
	value string
	tags  []spi.Tag
}

type memModel map[string]memEntry

func (m memModel) clone() memModel {
	out := memModel{}
	for k, v := range m {
		out[k] = v
	}

	return out
}

// query is what an expression selects, and if it is one.
func (m memModel) query(exp string) (memModel, bool) {
	if exp == "" {
		return nil, false
	}

	out := m.clone()

	for _, term := range strings.Split(exp, "&&") {
		parts := strings.Split(term, ":")
		if len(parts) > 2 {
			return nil, false
		}

		for k, e := range out {
			found := false

			for _, tag := range e.tags {
				found = found || tag.Name == parts[0] && (len(parts) == 1 || parts[1] == "" || parts[1] == tag.Value)
			}

			if !found {
				delete(out, k)
			}
		}
	}

	return out, true
}

func tagText(tags []spi.Tag) string {
	var out []string
	for _, t := range tags {
		out = append(out, fmt.Sprintf("%q=%q", t.Name, t.Value))
	}

	return strings.Join(out, ",")
}

func goodTags(tags []spi.Tag) bool {
	for _, t := range tags {
		if strings.Contains(t.Name+t.Value, ":") {
			return false
		}
	}

	return true
}

// memCase is a run of operations on a provider and on its model.
type memCase struct {
	rt     *rapid.T
	p      *mem.Provider
	open   map[string]spi.Store // by name
	closed []spi.Store
	model  map[string]memModel
	config map[string][]string
	iters  []memIter
	log    []string
}

type memIter struct {
	it   spi.Iterator
	want memModel
	seen map[string]bool
	done bool
}

func (m *memCase) fatal(format string, args ...any) {
	m.rt.Helper()
	m.rt.Fatalf("%s; after %s", fmt.Sprintf(format, args...), strings.Join(m.log, "; "))
}

func (m *memCase) note(format string, args ...any) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
}

func memKey(rt *rapid.T) string {
	return vk.Pick(rt, "key", "a", "b", "c", "a", "b", "c", "A", "a:b", "&&", " ", "é", "")
}

func memTags(rt *rapid.T) []spi.Tag {
	var out []spi.Tag

	for i, n := 0, vk.Size(rt, "ntags", 0, 3); i < n; i++ {
		t := spi.Tag{
			Name:  vk.Pick(rt, "tag", "x", "x", "y", "z", "X", ""),
			Value: vk.Pick(rt, "tagvalue", "1", "2", "1", "", "&", "é"),
		}

		if vk.Coin(rt, "colon", 12) {
			t.Name += ":"
		} else if vk.Coin(rt, "colon2", 12) {
			t.Value = "1:2"
		}

		out = append(out, t)
	}

	return out
}

func memValue(rt *rapid.T) []byte {
	return []byte(vk.Pick(rt, "value", "1", "2", "3", "v", "", "{}", "\x00\xff"))
}

func memExpression(rt *rapid.T) string {
	var terms []string

	for i, n := 0, vk.Size(rt, "terms", 1, 3); i < n; i++ {
		t := vk.Pick(rt, "name", "x", "x", "y", "z", "X", "")
		if rapid.Bool().Draw(rt, "withvalue") {
			t += ":" + vk.Pick(rt, "exprvalue", "1", "2", "", "é")
		}

		if vk.Coin(rt, "malformed", 15) {
			t += ":a:b"
		}

		terms = append(terms, t)
	}

	return strings.Join(terms, "&&")
}

// spoil overwrites what was handed in or out: the store has to have its own.
func spoil(value []byte, tags []spi.Tag) {
	for i := range value {
		value[i] = '!'
	}

	for i := range tags {
		tags[i] = spi.Tag{Name: "spoiled", Value: "spoiled"}
	}
}

func copyTags(tags []spi.Tag) []spi.Tag { return append([]spi.Tag{}, tags...) }

// store gives an open store, opening it if needed.
func (m *memCase) store() (string, spi.Store) {
	spelled := vk.Pick(m.rt, "store", "s", "t", "S", "st")
	name := strings.ToLower(spelled)

	if s := m.open[name]; s != nil && !vk.Coin(m.rt, "reopen", 4) {
		return name, s
	}

	m.note("open %s", spelled)

	s, err := m.p.OpenStore(spelled)
	if err != nil {
		m.fatal("cannot open store %s: %v", spelled, err)
	}

	m.open[name] = s

	if m.model[name] == nil {
		m.model[name] = memModel{}
		m.config[name] = nil
	}

	return name, s
}

func (m *memCase) step() { //nolint:gocyclo,cyclop,funlen
	rt := m.rt

	switch vk.Pick(rt, "op", "put", "put", "put", "batch", "batch", "delete", "get", "bulk", "query", "query", "next",
		"next", "config", "getconfig", "close", "reclose", "open", "provider") {
	case "put":
		name, s := m.store()
		key, value, tags := memKey(rt), memValue(rt), memTags(rt)

		if vk.Coin(rt, "nil", 15) {
			value = nil
		}

		m.note("%s.put %q %q %s", name, key, value, tagText(tags))

		val, kept := append([]byte(nil), value...), copyTags(tags)
		err := s.Put(key, value, tags...)
		ok := key != "" && value != nil && goodTags(kept)

		if (err == nil) != ok {
			m.fatal("put: %v", err)
		}

		if ok {
			m.model[name][key] = memEntry{string(val), kept}
		}

		spoil(value, tags)
	case "batch":
		name, s := m.store()

		var ops []spi.Operation

		after, ok := m.model[name].clone(), true

		for i, n := 0, vk.Size(rt, "ops", 0, 4); i < n; i++ {
			op := spi.Operation{Key: vk.Pick(rt, "key", "a", "b", "c", "a", "d"), Value: memValue(rt), Tags: memTags(rt)}
			if vk.Coin(rt, "emptykey", 15) {
				op.Key = ""
			}

			if vk.Coin(rt, "del", 3) {
				op.Value, op.Tags = nil, nil
			}

			if op.Key == "" || !goodTags(op.Tags) {
				ok = false
			}

			if op.Value == nil {
				delete(after, op.Key)
			} else {
				after[op.Key] = memEntry{string(op.Value), copyTags(op.Tags)}
			}

			m.note("%s.batch[%d] %q %q %s", name, i, op.Key, op.Value, tagText(op.Tags))
			ops = append(ops, op)
		}

		ok = ok && len(ops) > 0
		if err := s.Batch(ops); (err == nil) != ok {
			m.fatal("batch of %d: %v", len(ops), err)
		}

		if ok {
			m.model[name] = after
		}

		for _, op := range ops {
			spoil(op.Value, op.Tags)
		}
	case "delete":
		name, s := m.store()
		key := memKey(rt)
		m.note("%s.delete %q", name, key)

		if err := s.Delete(key); (err == nil) != (key != "") {
			m.fatal("delete: %v", err)
		}

		delete(m.model[name], key)
	case "get":
		name, s := m.store()
		m.get(name, s, memKey(rt))
	case "bulk":
		name, s := m.store()

		var keys []string
		for i, n := 0, vk.Size(rt, "keys", 0, 4); i < n; i++ {
			keys = append(keys, memKey(rt))
		}

		m.note("%s.bulk %q", name, keys)
		m.bulk(name, s, keys)
	case "query":
		name, s := m.store()
		exp := memExpression(rt)

		if vk.Coin(rt, "emptyexpr", 15) {
			exp = ""
		}

		m.note("%s.query %q", name, exp)

		want, ok := m.model[name].query(exp)

		it, err := s.Query(exp)
		if (err == nil) != ok {
			m.fatal("query %q: %v", exp, err)
		}

		if ok {
			n, e := it.TotalItems()
			if e != nil || n != len(want) {
				m.fatal("query %q has %d items (%v), want %d", exp, n, e, len(want))
			}

			m.iters = append(m.iters, memIter{it: it, want: want, seen: map[string]bool{}})
		}
	case "next":
		if len(m.iters) > 0 {
			i := rapid.IntRange(0, len(m.iters)-1).Draw(rt, "iter")
			m.next(&m.iters[i])
		}
	case "config":
		name := vk.Pick(rt, "store", "s", "t", "S", "never")
		tags := vk.Pick(rt, "tags", []string{}, []string{"x"}, []string{"x", "y"}, []string{"x", "a:b"}, []string{":"})
		m.note("config %s %q", name, tags)

		err := m.p.SetStoreConfig(name, spi.StoreConfiguration{TagNames: append([]string{}, tags...)})
		colon := strings.Contains(strings.Join(tags, ""), ":")
		exists := m.model[strings.ToLower(name)] != nil

		if (err == nil) != (!colon && exists) || !colon && !exists && !errors.Is(err, spi.ErrStoreNotFound) {
			m.fatal("config: %v", err)
		}

		if err == nil {
			m.config[strings.ToLower(name)] = tags
		}
	case "getconfig":
		name := vk.Pick(rt, "store", "s", "t", "S", "never")
		m.note("getconfig %s", name)

		got, err := m.p.GetStoreConfig(name)
		if m.model[strings.ToLower(name)] == nil {
			if !errors.Is(err, spi.ErrStoreNotFound) {
				m.fatal("configuration of no store: %v", err)
			}
		} else if err != nil || fmt.Sprint(got.TagNames) != fmt.Sprint(m.config[strings.ToLower(name)]) {
			m.fatal("configuration %v, want %v (%v)", got, m.config[strings.ToLower(name)], err)
		}
	case "close":
		name, s := m.store()
		m.note("close %s", name)

		if err := s.Close(); err != nil {
			m.fatal("close: %v", err)
		}

		m.closed = append(m.closed, s)
		delete(m.open, name)
		delete(m.model, name)
	case "reclose": // closing what is closed
		if len(m.closed) > 0 {
			m.note("close again")

			if err := m.closed[len(m.closed)-1].Close(); err != nil {
				m.fatal("close: %v", err)
			}
		}
	case "open":
		if _, err := m.p.OpenStore(""); err == nil {
			m.fatal("a store without name opened")
		}

		if n := len(m.p.GetOpenStores()); n != len(m.open) {
			m.fatal("%d stores open, want %d", n, len(m.open))
		}
	case "provider":
		if vk.Coin(rt, "closeall", 10) {
			m.note("close all")

			if err := m.p.Close(); err != nil {
				m.fatal("close all: %v", err)
			}

			for _, s := range m.open {
				m.closed = append(m.closed, s)
			}

			m.open, m.model = map[string]spi.Store{}, map[string]memModel{}
		}
	}
}

func (m *memCase) get(name string, s spi.Store, key string) {
	e, ok := m.model[name][key]
	v, err := s.Get(key)
	tags, err2 := s.GetTags(key)

	switch {
	case key == "":
		if err == nil || err2 == nil || errors.Is(err, spi.ErrDataNotFound) {
			m.fatal("%s.get without key: %v %v", name, err, err2)
		}
	case !ok:
		if !errors.Is(err, spi.ErrDataNotFound) || !errors.Is(err2, spi.ErrDataNotFound) {
			m.fatal("%s.get %q finds %q (%v) %v (%v), nothing was put", name, key, v, err, tags, err2)
		}
	case err != nil || err2 != nil || v == nil || string(v) != e.value || tagText(tags) != tagText(e.tags):
		m.fatal("%s.get %q = %q %s (%v %v), want %q %s", name, key, v, tagText(tags), err, err2, e.value, tagText(e.tags))
	default:
		spoil(v, tags)
	}
}

func (m *memCase) bulk(name string, s spi.Store, keys []string) {
	got, err := s.GetBulk(keys...)
	bad := len(keys) == 0

	for _, k := range keys {
		bad = bad || k == ""
	}

	if (err != nil) != bad {
		m.fatal("%s.bulk %q: %v", name, keys, err)
	}

	if err != nil {
		return
	}

	if len(got) != len(keys) {
		m.fatal("%s.bulk %q gives %d values", name, keys, len(got))
	}

	for i, k := range keys {
		e, ok := m.model[name][k]
		if (got[i] != nil) != ok || !bytes.Equal(got[i], []byte(e.value)) {
			m.fatal("%s.bulk %q gives %q for %q, want %q %v", name, keys, got[i], k, e.value, ok)
		}

	}

	for _, v := range got {
		spoil(v, nil)
	}
}

// next moves an iterator: it gives what was there when the query was made.
func (m *memCase) next(i *memIter) {
	more, err := i.it.Next()
	if err != nil || more != (len(i.seen) < len(i.want)) {
		m.fatal("next = %v %v after %d of %d", more, err, len(i.seen), len(i.want))
	}

	k, err := i.it.Key()
	v, err2 := i.it.Value()
	tags, err3 := i.it.Tags()

	if !more {
		if err == nil || err2 == nil || err3 == nil {
			m.fatal("an exhausted iterator gives %q %q %v", k, v, tags)
		}

		i.done = true

		return
	}

	e, ok := i.want[k]
	if err != nil || err2 != nil || err3 != nil || !ok || i.seen[k] || string(v) != e.value || tagText(tags) != tagText(e.tags) {
		m.fatal("iterator gives %q %q %s (%v %v %v; seen %v), want one of %v", k, v, tagText(tags), err, err2, err3,
			i.seen[k], i.want)
	}

	i.seen[k] = true

	spoil(v, tags)
}

func TestC28_Histories(t *testing.T) {
	vk.Check(t, "the history writes to a store", 20000, 400000, func(rt *rapid.T, c *vk.Case) {
		m := &memCase{
			rt: rt, p: mem.NewProvider(), open: map[string]spi.Store{}, model: map[string]memModel{},
			config: map[string][]string{},
		}

		for i, n := 0, rapid.IntRange(1, 40).Draw(rt, "steps"); i < n; i++ {
			m.step()
		}

		// everything there is in the end
		var names []string
		for name := range m.open {
			names = append(names, name)
		}

		sort.Strings(names)

		for _, name := range names {
			keys := []string{"a", "b", "c", "d", "A", "a:b", "&&", " ", "é"}
			for _, k := range keys {
				m.get(name, m.open[name], k)
			}

			m.bulk(name, m.open[name], keys)

			for _, k := range keys { // again: what was handed out is spoiled
				m.get(name, m.open[name], k)
			}
		}

		for i := range m.iters {
			for !m.iters[i].done {
				m.next(&m.iters[i])
			}
		}

		text := strings.Join(m.log, ";")
		for _, op := range []string{"batch", "query", "close", "delete"} {
			if strings.Contains(text, op) {
				c.Class("with %s", op)
			}
		}

		if strings.Contains(text, ".put") || strings.Contains(text, ".batch") {
			c.NonTrivial(text)
		}
		c.Sample(m.log)
	})
}
