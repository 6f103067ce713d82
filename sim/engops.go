package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

func (r *engRun) track(c *engCmd, kind int, obj ddd.IEntity, parent *sh) *sh {
	s := &sh{kind: kind, obj: obj, parent: parent}
	c.all = append(c.all, s)
	c.byObj[obj] = s
	if parent != nil {
		parent.kids = append(parent.kids, s)
	} else {
		c.roots = append(c.roots, s)
	}
	if id := obj.GetID(); id != "" {
		k := fmt.Sprint(kind) + id
		if c.seen[k] {
			c.fuzzy = "row loaded twice: " + k
		}
		c.seen[k] = true
	}
	return s
}

// trackLoaded registers a loaded aggregate.
func (r *engRun) trackLoaded(c *engCmd, obj *ERoot) *sh {
	s := r.track(c, kRoot, obj, nil)
	s.inRoots = true
	for _, it := range obj.Items {
		x := r.track(c, kItem, it, s)
		for _, sb := range it.Subs {
			r.track(c, kSub, sb, x)
		}
	}
	if obj.Extra != nil {
		r.track(c, kNote, obj.Extra, s)
	}
	for _, k := range sortedKeys(obj.Notes) {
		r.track(c, kNote, obj.Notes[k], s)
	}
	for _, m := range obj.Marks {
		r.track(c, kMark, m, s)
	}
	var f func(*sh)
	f = func(s *sh) {
		s.base = s.row()
		s.saved = s.base
		s.home = s.place()
		for _, k := range s.kids {
			f(k)
		}
	}
	f(s)
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// checkLoad compares what was loaded with the committed rows, if nobody else
// committed since the command began.
func (r *engRun) checkLoad(c *engCmd, s *sh, items, extra, subs, marks bool) {
	w := r.w
	if r.vers != c.v0 || c.fuzzy != "" {
		return
	}
	w.Probe("load-checked")
	id := s.obj.GetID()
	var f func(s *sh)
	f = func(s *sh) {
		cur := r.state[engTables[s.kind]][s.obj.GetID()]
		if cur == nil {
			w.Fail("C02:load", "command %d loads %s %s which is not stored", c.n, engTables[s.kind], s.obj.GetID())
		} else if d := sameRow(cur, s.base); d != "" {
			w.Fail("C02:load", "command %d loads %s %s with %s", c.n, engTables[s.kind], s.obj.GetID(), d)
		}
		for _, k := range s.kids {
			f(k)
		}
	}
	f(s)
	count := func(kind int, col, pid string, slot string) int {
		n := 0
		for _, row := range r.state[engTables[kind]] {
			if row[col] == pid && (slot == "" || row["slot"] == slot) {
				n++
			}
		}
		return n
	}
	ni, nx, nm := 0, 0, 0
	for _, k := range s.kids {
		switch {
		case k.kind == kItem:
			ni++
			if subs && len(k.kids) != count(kSub, "item_id", k.obj.GetID(), "") {
				w.Fail("C02:load", "command %d loads %d subs of item %s", c.n, len(k.kids), k.obj.GetID())
			}
		case k.kind == kNote:
			nx++
		case k.kind == kMark:
			nm++
		}
	}
	if items && ni != count(kItem, "root_id", id, "") {
		w.Fail("C02:load", "command %d loads %d items of %s, %d are stored", c.n, ni, id, count(kItem, "root_id", id, ""))
	}
	if marks && nm != count(kMark, "root_id", id, "") {
		w.Fail("C02:load", "command %d loads %d marks of %s, %d are stored", c.n, nm, id, count(kMark, "root_id", id, ""))
	}
	if extra && count(kNote, "root_id", id, "x") > 0 && nx == 0 {
		w.Fail("C02:load", "command %d does not load the note of %s", c.n, id)
	}
}

// onlyX: the note that is asked for by its slot must be the one that is loaded.
func (r *engRun) onlyX(c *engCmd, o *ERoot) {
	if o.Extra != nil && o.Extra.GetID() != "" && o.Extra.F.Slot != "x" {
		r.w.Fail("C02:load", "command %d asks for the note of %s in slot x and loads %s in %q", c.n, o.GetID(), o.Extra.GetID(), o.Extra.F.Slot)
	}
}

// deepLoad reads a whole aggregate outside the engine, for CustomGet.
func (r *engRun) deepLoad(en *engNode, id string) (*ERoot, error) {
	var ro []*RootPO
	if err := en.db.Where("id = ?", id).Find(&ro).Error; err != nil || len(ro) == 0 {
		return nil, err
	}
	d := &ERoot{}
	loadRoot(ro[0], d)
	var its []*ItemPO
	if err := en.db.Where("root_id = ?", id).Find(&its).Error; err != nil {
		return nil, err
	}
	for _, p := range its {
		it := &EItem{}
		loadItem(p, it)
		var sbs []*SubPO
		if err := en.db.Where("item_id = ?", p.ID).Find(&sbs).Error; err != nil {
			return nil, err
		}
		for _, q := range sbs {
			sb := &ESub{}
			loadSub(q, sb)
			it.Subs = append(it.Subs, sb)
		}
		d.Items = append(d.Items, it)
	}
	var ns []*NotePO
	if err := en.db.Where("root_id = ?", id).Find(&ns).Error; err != nil {
		return nil, err
	}
	for _, p := range ns {
		nt := &ENote{}
		loadNote(p, nt)
		if p.Slot == "x" && d.Extra == nil {
			d.Extra = nt
		} else if p.Slot != "x" {
			if d.Notes == nil {
				d.Notes = map[string]*ENote{}
			}
			d.Notes[p.Slot+p.ID] = nt
		}
	}
	var ms []*MarkPO
	if err := en.db.Where("root_id = ?", id).Find(&ms).Error; err != nil {
		return nil, err
	}
	for _, p := range ms {
		m := &EMark{}
		loadMark(p, m)
		d.Marks = append(d.Marks, m)
	}
	return d, nil
}

// mutate changes one field; it may also set the value it already has.
func mutate(c *engCmd, kind int, f *EFld) {
	n := 2
	if kind == kItem {
		n = 8
	} else if kind == kRoot {
		n = 10
	}
	str := []string{"", "a", "b", "n"}
	num := []int64{0, 1, 2, 7}
	switch c.pick(n) {
	case 0:
		f.V = num[c.pick(4)]
	case 1:
		f.Name = str[c.pick(4)]
	case 2:
		f.Flag = !f.Flag
	case 3:
		f.Rate = []float64{0, 1.5, 2.25}[c.pick(3)]
	case 4:
		f.Opt = nil
		if k := c.pick(4); k > 0 {
			v := num[k-1]
			f.Opt = &v
		}
	case 5:
		f.MA = num[c.pick(4)]
	case 6:
		f.MB = str[c.pick(4)]
	case 7:
		switch c.pick(4) {
		case 0:
			f.Attr = nil
		case 1:
			f.Attr = &Attr{}
		case 2:
			f.Attr = &Attr{A: str[c.pick(4)], B: num[c.pick(4)]}
		case 3:
			if f.Attr != nil {
				f.Attr.A += "+"
			}
		}
	case 8:
		switch c.pick(3) {
		case 0:
			f.Tags = nil
		case 1:
			f.Tags = []string{str[c.pick(4)]}
		case 2:
			f.Tags = append(f.Tags, "t")
		}
	case 9:
		f.At = f.At.Add(time.Duration(c.pick(3)) * time.Hour)
	}
}

func (r *engRun) newID(c *engCmd, kind string) string {
	if c.p(400) {
		return ""
	}
	r.newN++
	return fmt.Sprintf("c%d%s%d", c.n, kind, r.newN)
}

func (r *engRun) newRoot(c *engCmd) *sh {
	id := r.newID(c, "r")
	o := &ERoot{BaseEntity: ddd.NewBase(id), F: EFld{At: time.Date(2023, 1, 2, 3, 4, 5, 0, time.UTC)}}
	if id != "" {
		r.ids = append(r.ids, id)
	}
	mutate(c, kRoot, &o.F)
	s := r.track(c, kRoot, o, nil)
	for k := c.pick(3); k > 0; k-- {
		it := r.newItem(c, s)
		for j := c.pick(2); j > 0; j-- {
			r.newSub(c, it)
		}
	}
	if c.p(250) {
		r.newNote(c, s, "x")
	}
	if c.p(150) {
		r.raise(c, s, c.pick(3))
	}
	return s
}

func (r *engRun) newItem(c *engCmd, p *sh) *sh {
	it := &EItem{BaseEntity: ddd.NewBase(r.newID(c, "i"))}
	mutate(c, kItem, &it.F)
	p.obj.(*ERoot).Items = append(p.obj.(*ERoot).Items, it)
	return r.track(c, kItem, it, p)
}

func (r *engRun) newSub(c *engCmd, p *sh) *sh {
	sb := &ESub{BaseEntity: ddd.NewBase(r.newID(c, "s"))}
	mutate(c, kSub, &sb.F)
	p.obj.(*EItem).Subs = append(p.obj.(*EItem).Subs, sb)
	return r.track(c, kSub, sb, p)
}

func (r *engRun) newMark(c *engCmd, p *sh) *sh {
	m := &EMark{BaseEntity: ddd.NewBase(r.newID(c, "k")), Zone: []string{"z", "y"}[c.pick(2)]}
	mutate(c, kMark, &m.F)
	m.F.Slot = m.Zone
	p.obj.(*ERoot).Marks = append(p.obj.(*ERoot).Marks, m)
	r.w.Probe("composite-key")
	return r.track(c, kMark, m, p)
}

func (r *engRun) newNote(c *engCmd, p *sh, slot string) *sh {
	nt := &ENote{BaseEntity: ddd.NewBase(r.newID(c, "n"))}
	mutate(c, kNote, &nt.F)
	s := r.track(c, kNote, nt, p)
	r.attachNote(c, s, p, slot)
	return s
}

func (r *engRun) attachNote(c *engCmd, s, p *sh, slot string) {
	nt := s.obj.(*ENote)
	nt.F.Slot = slot
	switch o := p.obj.(type) {
	case *EBox:
		o.Notes = append(o.Notes, nt)
	case *ERoot:
		if slot == "x" {
			o.Extra = nt
			return
		}
		if o.Notes == nil {
			o.Notes = map[string]*ENote{}
		}
		r.newN++
		o.Notes[fmt.Sprintf("%s#%d", slot, r.newN)] = nt
	}
}

func cut[T comparable](c *engCmd, l []T, x T) []T {
	i := -1
	for j, y := range l {
		if y == x {
			i = j
		}
	}
	if i < 0 {
		panic("harness: child not found")
	}
	if c.p(400) {
		return append(l[:i], l[i+1:]...) // in place
	}
	out := append([]T(nil), l[:i]...)
	return append(out, l[i+1:]...)
}

// unlink takes the real entity out of its real parent.
func (r *engRun) unlink(c *engCmd, s *sh) {
	switch p := s.parent.obj.(type) {
	case *ERoot:
		switch e := s.obj.(type) {
		case *EItem:
			p.Items = cut(c, p.Items, e)
		case *EMark:
			p.Marks = cut(c, p.Marks, e)
		case *ENote:
			if p.Extra == e {
				p.Extra = nil
				return
			}
			for k, x := range p.Notes {
				if x == e {
					delete(p.Notes, k)
				}
			}
		case *EBox:
			p.Box = nil
		}
	case *EItem:
		p.Subs = cut(c, p.Subs, s.obj.(*ESub))
	case *EBox:
		p.Notes = cut(c, p.Notes, s.obj.(*ENote))
	}
}

// place names the collection a note is in.
func (s *sh) place() string {
	if s.kind != kNote || s.parent == nil {
		return ""
	}
	if o, ok := s.parent.obj.(*ERoot); ok && o.Extra == s.obj.(*ENote) {
		return fmt.Sprintf("x%p", s.parent)
	}
	return fmt.Sprintf("m%p", s.parent)
}

func (s *sh) dropKid(k *sh) {
	for i, x := range s.kids {
		if x == k {
			s.kids = append(append([]*sh(nil), s.kids[:i]...), s.kids[i+1:]...)
			return
		}
	}
}

func (c *engCmd) some(f func(s *sh) bool) *sh {
	var l []*sh
	for _, s := range c.all {
		if f(s) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[c.pick(len(l))]
}

func aliveKind(k int) func(s *sh) bool {
	return func(s *sh) bool { return s.kind == k && s.alive() }
}

// enter notes that the command's code runs under its locks.
func (r *engRun) enter(c *engCmd) {
	w := r.w
	if c.began {
		return
	}
	c.began = true
	if c.wantDup {
		w.Fail("C03:repeated-key", "the main function of command %d runs although a key was given twice", c.n)
	}
	if len(c.locks) < len(c.keys) {
		w.Fail("C03:body-without-lock", "the main function of command %d runs with %d of its %d locks", c.n, len(c.locks), len(c.keys))
	}
	for _, l := range c.locks {
		if !l.held {
			w.Fail("C03:body-without-lock", "the main function of command %d runs without lock %s", c.n, l.name)
		}
	}
	if len(c.keys) > 0 {
		w.Probe("locked-body")
	}
	for _, o := range r.cmds {
		if o == c || !o.began || !o.alive() || len(o.locks) == 0 || o.locks[0].unlock > 0 {
			continue
		}
		for _, k := range c.keys {
			for _, k2 := range o.keys {
				if k == k2 {
					w.Fail("C03:overlap", "the main functions of commands %d and %d both run under key %s", o.n, c.n, k)
				}
			}
		}
	}
}

// build is the Build step of an ICommand: it loads whole aggregates.
func (r *engRun) build(ctx context.Context, c *engCmd) ([]ddd.IEntity, error) {
	r.enter(c)
	c.inBody = true
	defer func() { c.inBody = false }()
	var out []ddd.IEntity
	for k := c.pick(3); k > 0; k-- {
		id := r.ids[c.pick(len(r.ids))]
		if c.bulk > 0 && r.big != "" {
			id = r.big
		}
		if c.seen["0"+id] {
			continue
		}
		o := &ERoot{BaseEntity: ddd.NewBase(id)}
		deep := c.p(600)
		marks := c.p(500)
		kids := []interface{}{&o.Items}
		if marks {
			kids = append(kids, &o.Marks)
		}
		nt := &ENote{F: EFld{Slot: "x"}}
		plain := c.p(300)
		if plain {
			kids = append(kids, nt)
		} else {
			o.Extra = nt
			kids = append(kids, &o.Extra)
		}
		err := c.builder.Build(ctx, o, kids...)
		if err == nil && plain && nt.GetID() != "" {
			r.w.Probe("load-plain")
			o.Extra = nt
		}
		if errors.Is(err, ddd.ErrEntityNotFound) {
			r.notFound(c, id)
			continue
		}
		if err != nil {
			return nil, err
		}
		if deep {
			for _, it := range o.Items {
				if err := c.builder.Build(ctx, it, &it.Subs); err != nil {
					if errors.Is(err, ddd.ErrEntityNotFound) {
						c.fuzzy = "item vanished"
						continue
					}
					return nil, err
				}
			}
		}
		r.onlyX(c, o)
		s := r.trackLoaded(c, o)
		r.checkLoad(c, s, true, true, deep, marks)
		out = append(out, o)
	}
	if c.p(20) {
		out = append(out, &ERoot{})
		c.mustFail = "a built root has no id"
	}
	r.w.Seam("built")
	if c.failAt == 0 && c.failBuild && c.mustFail == "" {
		return nil, r.fail(c)
	}
	return out, nil
}

func (r *engRun) notFound(c *engCmd, id string) {
	if r.vers == c.v0 && r.state["eng_root"][id] != nil {
		r.w.Fail("C02:load", "command %d does not find %s which is stored", c.n, id)
	}
}

// body is the main function of a command: it interprets the command's program.
func (r *engRun) body(ctx context.Context, c *engCmd, repo *ddd.Repository, cont *ddd.RootContainer) error {
	w := r.w
	c.bodyRun++
	if c.bodyRun > 1 {
		w.Fail("C01:run-twice", "the main function of command %d runs twice", c.n)
	}
	r.enter(c)
	c.inBody = true
	defer func() { c.inBody = false }()
	for i := 0; i < c.nops; i++ {
		if c.inner != nil && i == c.innerAt {
			r.nest(ctx, c)
		}
		if i == c.failAt {
			break
		}
		if err := r.op(ctx, c, repo, cont); err != nil {
			return err
		}
		if c.mustFail != "" {
			break
		}
	}
	if c.failAt >= 0 && c.mustFail == "" {
		return r.fail(c)
	}
	c.bodyDone = true
	return nil
}

// fail is the planned end of a program.
func (r *engRun) fail(c *engCmd) error {
	switch c.failHow {
	case 0:
		c.planned = "error"
		return errBiz
	case 1:
		c.planned = "break"
		return ddd.ErrBreak
	}
	c.planned = "panic"
	c.panicked = true
	panic("business panic")
}

func (r *engRun) op(ctx context.Context, c *engCmd, repo *ddd.Repository, cont *ddd.RootContainer) error {
	w := r.w
	add := func(o ddd.IEntity) {
		if repo != nil {
			repo.Add(o)
		} else {
			cont.Add(o)
		}
	}
	remove := func(o ddd.IEntity) {
		if repo != nil {
			repo.Remove(o)
		} else {
			cont.Remove(o)
		}
	}
	switch k := c.pick(28); k {
	case 0, 1, 2, 3, 4: // load
		if repo == nil {
			return nil
		}
		id := r.ids[c.pick(len(r.ids))]
		if c.bulk > 0 && r.big != "" {
			id = r.big
		}
		if c.seen["0"+id] {
			return nil
		}
		mode := c.pick(8)
		if mode == 3 && c.midSave == 0 {
			o, err := r.deepLoad(c.eng, id)
			if err != nil {
				return err
			}
			if o == nil {
				r.notFound(c, id)
				return nil
			}
			// often several at once
			objs, ids := []*ERoot{o}, []string{id}
			if c.pick(2) == 1 {
				id2 := r.ids[c.pick(len(r.ids))]
				if id2 != id && !c.seen["0"+id2] {
					o2, err := r.deepLoad(c.eng, id2)
					if err != nil {
						return err
					}
					if o2 != nil {
						objs, ids = append(objs, o2), append(ids, id2)
						w.Probe("custom-several")
					}
				}
			}
			var tmp []ERoot
			var roots []ddd.IEntity
			for _, o := range objs {
				tmp = append(tmp, *o)
				*o = ERoot{}
				roots = append(roots, o)
			}
			if err := repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {
				for i := range roots {
					*(roots[i].(*ERoot)) = tmp[i]
				}
			}, roots...); err != nil {
				return err
			}
			for i, o := range objs {
				w.Log("load custom %s", ids[i])
				s := r.trackLoaded(c, o)
				r.checkLoad(c, s, true, true, true, true)
			}
			return nil
		}
		o := &ERoot{BaseEntity: ddd.NewBase(id)}
		var err error
		switch mode {
		case 0:
			err = repo.Get(ctx, o)
		case 1:
			err = repo.Get(ctx, o, &o.Items)
		case 4, 5:
			err = repo.Get(ctx, o, &o.Items, &o.Marks)
		case 6: // a note object that is attached already
			o.Extra = &ENote{F: EFld{Slot: "x"}}
			err = repo.Get(ctx, o, o.Extra, &o.Items)
			if o.Extra.GetID() == "" {
				o.Extra = nil
			} else {
				w.Probe("load-plain")
			}
		case 7: // any note
			err = repo.Get(ctx, o, &o.Items, &o.Extra)
			w.Probe("load-nil-child")
		default:
			o.Extra = &ENote{F: EFld{Slot: "x"}}
			err = repo.Get(ctx, o, &o.Items, &o.Extra)
		}
		w.Log("load %s mode %d err=%v", id, mode, err)
		if errors.Is(err, ddd.ErrEntityNotFound) {
			r.notFound(c, id)
			return nil
		}
		if err != nil {
			return err
		}
		if mode != 7 {
			r.onlyX(c, o)
		}
		s := r.trackLoaded(c, o)
		r.checkLoad(c, s, mode >= 1, mode == 2 || mode >= 6, false, mode == 4 || mode == 5)
	case 5: // new root
		s := r.newRoot(c)
		w.Log("add root %s", s.obj.GetID())
		add(s.obj)
		s.inRoots = true
	case 6, 7, 8, 9: // change
		s := c.some(func(s *sh) bool { return s.kind != kBox && s.alive() })
		if s == nil {
			return nil
		}
		if !c.p(150) {
			mutate(c, s.kind, s.obj.(iFld).fld())
		}
		s.obj.Dirty()
		s.dirty = true
		w.Log("change %s %s", engTables[s.kind], s.obj.GetID())
	case 10, 11: // new child
		s := c.some(func(s *sh) bool { return (s.kind == kRoot || s.kind == kItem || s.kind == kBox) && s.alive() })
		if s == nil {
			return nil
		}
		w.Log("add child to %s", s.obj.GetID())
		switch s.kind {
		case kItem:
			r.newSub(c, s)
		case kBox:
			r.newNote(c, s, "b")
		default:
			o := s.obj.(*ERoot)
			switch c.pick(6) {
			case 5:
				for k := c.pick(3); k >= 0; k-- {
					r.newMark(c, s)
				}
			case 0, 1:
				it := r.newItem(c, s)
				if c.p(400) {
					r.newSub(c, it)
				}
			case 2:
				if o.Extra == nil {
					r.newNote(c, s, "x")
				}
			case 3:
				r.newNote(c, s, "m")
			case 4:
				if o.Box == nil {
					r.newN++
					o.Box = &EBox{BaseEntity: ddd.NewBase(fmt.Sprintf("box%d", r.newN))}
					b := r.track(c, kBox, o.Box, s)
					for k := c.pick(3); k > 0; k-- {
						r.newNote(c, b, "b")
					}
				}
			}
		}
	case 12, 13: // remove child
		s := c.some(func(s *sh) bool {
			if s.kind == kRoot || s.kind == kBox || !s.alive() {
				return false
			}
			if !c.recursive {
				for _, k := range s.kids {
					if k.changed() {
						return false
					}
				}
			}
			return true
		})
		if s == nil {
			return nil
		}
		r.detach(c, s)
	case 14, 15, 16: // move
		s := c.some(func(s *sh) bool { return s.kind != kRoot && s.kind != kBox && s.alive() })
		if s == nil {
			return nil
		}
		r.move(c, s)
	case 17: // remove root
		s := c.some(func(s *sh) bool {
			return s.kind == kRoot && s.alive() && (c.recursive || !anyChanged(s.kids))
		})
		if s == nil {
			return nil
		}
		w.Log("remove root %s", s.obj.GetID())
		remove(s.obj)
		s.inRoots = false
		if c.p(400) {
			// take something out of the removed aggregate
			if m := c.some(func(m *sh) bool {
				return !m.dead && !m.detached && m.kind != kRoot && m.kind != kBox && m.parent == s && m.saved != nil
			}); m != nil {
				r.move(c, m)
			}
		}
	case 18: // remove by id
		id := r.ids[c.pick(len(r.ids))]
		if c.seen["0"+id] {
			return nil
		}
		o := &ERoot{BaseEntity: ddd.NewBase(id)}
		w.Log("remove by id %s", id)
		remove(o)
		if repo == nil {
			c.mustFail = "removal of a root that was not built"
			return nil
		}
		s := r.track(c, kRoot, o, nil)
		s.blind, s.saved, s.base = true, map[string]any{}, map[string]any{}
	case 19: // save in between
		if !c.useSave {
			return nil
		}
		w.Log("save")
		var err error
		c.inSave = true
		if repo != nil {
			err = repo.Save(ctx)
		} else {
			err = c.commit(ctx)
		}
		c.inSave = false
		if err != nil {
			return err
		}
		c.midSave++
		r.settle(c)
		w.Probe("mid-save")
	case 20, 21: // event
		s := c.some(func(s *sh) bool { return s.kind != kBox && !s.transient() })
		if s != nil {
			r.raise(c, s, c.pick(3))
		}
	case 22:
		w.Seam("body")
	case 23:
		w.Sleep(time.Duration(c.pick(20)) * 50 * time.Millisecond)
	case 24: // replace the single note
		s := c.some(func(s *sh) bool { return s.kind == kRoot && s.alive() && s.obj.(*ERoot).Extra != nil })
		if s == nil {
			return nil
		}
		r.detach(c, c.byObj[s.obj.(*ERoot).Extra])
		r.newNote(c, s, "x")
	case 27: // loading it again is refused and changes nothing
		s := c.some(func(s *sh) bool { return s.kind == kRoot && s.alive() && s.saved != nil })
		if s == nil || repo == nil {
			return nil
		}
		w.Probe("load-again")
		if err := repo.Get(ctx, s.obj); err == nil {
			c.fuzzy = "loaded twice"
		}
	case 26:
		if c.bulk > 0 {
			r.bulkOp(c, add)
		}
	case 25:
		switch c.pick(5) {
		case 0: // one entity under two parents
			a, b := c.some(aliveKind(kRoot)), c.some(aliveKind(kRoot))
			if a == nil || a == b {
				return nil
			}
			it := r.newItem(c, a)
			b.obj.(*ERoot).Items = append(b.obj.(*ERoot).Items, it.obj.(*EItem))
			c.mustFail = "entity under two parents"
		case 1: // the same root twice
			s := c.some(aliveKind(kRoot))
			if s == nil {
				return nil
			}
			add(s.obj)
			c.mustFail = "root added twice"
		default:
			if c.kind == 2 && c.out == "" {
				c.out = fmt.Sprintf("out%d", c.n)
				c.agent.Output(c.out)
			}
		}
	}
	return nil
}

// bulkOp does one thing to many entities.
func (r *engRun) bulkOp(c *engCmd, add func(ddd.IEntity)) {
	n := c.bulk
	c.bulk = 0
	r.w.Probe("bulk")
	how := c.pick(7)
	if how == 5 {
		r.w.Log("bulk: add %d roots", n)
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("c%db%d", c.n, i)
			o := &ERoot{BaseEntity: ddd.NewBase(id), F: EFld{V: int64(i), Name: "b", At: time.Date(2023, 1, 2, 3, 4, 5, 0, time.UTC)}}
			r.ids = append(r.ids, id)
			s := r.track(c, kRoot, o, nil)
			add(o)
			s.inRoots = true
		}
		return
	}
	var s *sh
	for _, x := range c.all { // the one with most items
		if x.kind == kRoot && x.alive() && (s == nil || len(x.kids) > len(s.kids)) {
			s = x
		}
	}
	if s == nil {
		return
	}
	switch how {
	case 0, 1:
		r.w.Log("bulk: add %d items to %s", n, s.obj.GetID())
		for i := 0; i < n; i++ {
			id := ""
			if i%3 > 0 {
				id = fmt.Sprintf("c%dj%d", c.n, i)
			}
			it := &EItem{BaseEntity: ddd.NewBase(id), F: EFld{V: int64(i), Name: "b"}}
			s.obj.(*ERoot).Items = append(s.obj.(*ERoot).Items, it)
			x := r.track(c, kItem, it, s)
			if i%50 == 49 {
				r.newSub(c, x)
			}
		}
	case 2, 6:
		r.w.Log("bulk: change all items of %s", s.obj.GetID())
		for i, x := range s.kids {
			if x.kind == kItem && x.alive() {
				x.obj.(*EItem).F.V += int64(i + 1)
				x.obj.Dirty()
				x.dirty = true
			}
		}
	case 3:
		r.w.Log("bulk: remove all items of %s", s.obj.GetID())
		for _, x := range append([]*sh(nil), s.kids...) {
			if x.kind == kItem && x.alive() && (c.recursive || !anyChanged(x.kids)) {
				r.detach(c, x)
			}
		}
	case 4:
		r.w.Log("bulk: %d events of %s", n, s.obj.GetID())
		how := c.pick(3)
		for i := 0; i < n; i++ {
			r.raise(c, s, how)
		}
	}
}

func anyChanged(l []*sh) bool {
	for _, k := range l {
		if k.changed() {
			return true
		}
	}
	return false
}

func (c *engCmd) commit(ctx context.Context) error { return c.agent.Commit(ctx) }

func (r *engRun) detach(c *engCmd, s *sh) {
	r.w.Log("remove child %s %s", engTables[s.kind], s.obj.GetID())
	r.unlink(c, s)
	s.detached = true
	if s.saved == nil {
		s.trans = true
	}
}

// move puts s under another parent.
func (r *engRun) move(c *engCmd, s *sh) {
	var to *sh
	switch s.kind {
	case kItem, kMark:
		to = c.some(func(t *sh) bool { return t.kind == kRoot && t.alive() && t != s.parent })
	case kSub:
		to = c.some(func(t *sh) bool { return t.kind == kItem && t.alive() && t != s.parent })
	case kNote:
		to = c.some(func(t *sh) bool { return (t.kind == kRoot || t.kind == kBox) && t.alive() })
	}
	if to == nil {
		return
	}
	slot := ""
	if s.kind == kNote {
		slot = "m"
		if to.kind == kBox {
			slot = "b"
			if to == s.parent {
				return
			}
		} else if to.obj.(*ERoot).Extra == nil && c.p(500) {
			slot = "x"
		}
		if to == s.parent && slot != "x" && s.obj.(*ENote).F.Slot != "x" {
			return // the same map again
		}
	}
	r.w.Log("move %s %s to %s slot %s saved %v", engTables[s.kind], s.obj.GetID(), to.obj.GetID(), slot, s.saved)
	r.w.Probe("move")
	s.dirty = true
	r.unlink(c, s)
	s.parent.dropKid(s)
	s.parent = to
	to.kids = append(to.kids, s)
	switch s.kind {
	case kItem:
		to.obj.(*ERoot).Items = append(to.obj.(*ERoot).Items, s.obj.(*EItem))
	case kMark:
		to.obj.(*ERoot).Marks = append(to.obj.(*ERoot).Marks, s.obj.(*EMark))
	case kSub:
		to.obj.(*EItem).Subs = append(to.obj.(*EItem).Subs, s.obj.(*ESub))
	case kNote:
		r.attachNote(c, s, to, slot)
		if s.saved != nil && s.place() == s.home {
			s.obj.Dirty() // back where it came from: a change of the entity, not a move
		}
	}
}
