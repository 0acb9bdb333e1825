package main

import (
	"strings"
)

// safe requires that no panicking construct recorded in the engine from event
// index `from` on can be reached.
func (c *Ctx) safe(en *Engine, from int, name string, skip func(*Event) bool) int {
	n := 0
	type key struct {
		rule, pos string
	}
	worst := map[key]string{}
	var order []key
	for _, e := range en.events[from:] {
		if e.Kind != "ob" || (skip != nil && skip(e)) {
			continue
		}
		n++
		k := key{e.Rule, c.pos(e.Pos) + " in " + e.Fn.Name()}
		why := ""
		if e.Unsafe != False {
			ok, d := en.infeasible(e.Unsafe)
			if !ok {
				why = "can fail when " + d
			}
		}
		if w, seen := worst[k]; !seen {
			order = append(order, k)
			worst[k] = why
		} else if w == "" {
			worst[k] = why
		}
	}
	for _, k := range order {
		c.ok(worst[k] == "", "no run-time panic: "+k.rule, name, k.pos, "%s", worst[k])
	}
	return n
}

// noWarn requires that the analysed code contains nothing the engine does not model.
func (c *Ctx) noWarn(en *Engine, name string) {
	for _, w := range sortedKeys(en.warns()) {
		c.ok(false, "the analysed code must be modelled", name, "", "%s", w)
	}
}

func init() {
	register("C01", "proof", "value analysis of parseHeader, NewComposite and NewComposites: every slice, index, make, dereference, division, conversion and explicit panic is a proof obligation whose violation must be unreachable", func(c *Ctx) {
		h := c.header()
		n := c.safe(h.Engine, 0, "parsing the header", nil)
		c.noWarn(h.Engine, "parsing the header")
		for _, v := range c.data() {
			n += c.safe(v.Engine, 0, "parsing the data ("+v.name+")", nil)
			c.noWarn(v.Engine, "parsing the data")
		}
		a := c.archive()
		n += c.safe(a.Engine, 0, "parsing an archive", nil)
		c.noWarn(a.Engine, "parsing an archive")
		c.ok(n > 20, "a check must have obligations", "panicking constructs", "", "only %d found", n)
		c.notes = append(c.notes, "package initialisation is executed by every program start and evaluated completely by the engine")
	})
	register("C02", "proof", "value analysis: the size of every allocation made while parsing is bounded by a constant under the condition of its execution", func(c *Ctx) {
		n := c.allocs(c.header().Engine, "parsing the header")
		for _, v := range c.data() {
			n += c.allocs(v.Engine, "parsing the data ("+v.name+")")
		}
		n += c.allocs(c.archive().Engine, "parsing an archive")
		c.ok(n > 0, "a check must have obligations", "allocations", "", "none found")
	})
}

const allocLimit = 1 << 28 // bytes in one allocation

func (c *Ctx) allocs(en *Engine, name string) int {
	n := 0
	for _, e := range en.events {
		if e.Kind != "alloc" || strings.HasPrefix(e.Rule, "init") {
			continue
		}
		n++
		size, _ := e.Val.int64()
		if size < 1 {
			size = 1
		}
		lim := Num(allocLimit / size)
		for _, a := range e.Args {
			if a == nil {
				continue
			}
			ok, d := en.infeasible(And(e.Guard, Lt(lim, a)))
			c.ok(ok, "allocation sizes are bounded before allocating", name, c.pos(e.Pos), "the size %s is not below %s elements when %s", show(a, 6), lim, d)
			ok, d = en.infeasible(And(e.Guard, Lt(a, Zero)))
			c.ok(ok, "allocation sizes are not negative", name, c.pos(e.Pos), "the size %s is negative when %s", show(a, 6), d)
		}
	}
	return n
}
