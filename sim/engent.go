package main

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exec "github.com/bytedance/dddfirework/executor/mysql"
)

// ---- the aggregate of the engine scenario: a root with a list of items (each
// with a list of subs), a single note and a map of notes.

type Attr struct {
	A string
	B int64
}

// EFld are the plain fields of an entity.
type EFld struct {
	V    int64
	Name string
	Opt  *int64
	MA   int64
	MB   string
	Attr *Attr
	At   time.Time
	Tags []string
	Flag bool
	Rate float64
	Slot string
}

func (f EFld) clone() EFld {
	if f.Opt != nil {
		v := *f.Opt
		f.Opt = &v
	}
	if f.Attr != nil {
		v := *f.Attr
		f.Attr = &v
	}
	f.Tags = append([]string(nil), f.Tags...)
	return f
}

type ERoot struct {
	ddd.BaseEntity
	F     EFld
	Items []*EItem
	Extra *ENote
	Notes map[string]*ENote
	Box   *EBox
	Marks []*EMark
}

type EItem struct {
	ddd.BaseEntity
	F    EFld
	Subs []*ESub
}

// EItem lists its children itself.
func (e *EItem) GetChildren() map[string][]ddd.IEntity {
	out := []ddd.IEntity{}
	for _, s := range e.Subs {
		out = append(out, s)
	}
	return map[string][]ddd.IEntity{"subs": out}
}

type ESub struct {
	ddd.BaseEntity
	F EFld
}

type ENote struct {
	ddd.BaseEntity
	F EFld
}

// EMark is stored under a composite key, by a converter object.
type EMark struct {
	ddd.BaseEntity
	Zone string
	F    EFld
}

// EBox has no table of its own; the notes inside are stored.
type EBox struct {
	ddd.BaseEntity
	Notes []*ENote
}

type iFld interface {
	ddd.IEntity
	fld() *EFld
}

func (e *ERoot) fld() *EFld { return &e.F }
func (e *EItem) fld() *EFld { return &e.F }
func (e *ESub) fld() *EFld  { return &e.F }
func (e *ENote) fld() *EFld { return &e.F }
func (e *EMark) fld() *EFld { return &e.F }

func (e *ERoot) BeforeCreate(ctx context.Context) error { return engHook(e, "bc") }
func (e *ERoot) AfterCreate(ctx context.Context) error  { return engHook(e, "ac") }
func (e *ERoot) BeforeUpdate(ctx context.Context) error { return engHook(e, "bu") }
func (e *ERoot) AfterUpdate(ctx context.Context) error  { return engHook(e, "au") }
func (e *ERoot) BeforeDelete(ctx context.Context) error { return engHook(e, "bd") }
func (e *ERoot) AfterDelete(ctx context.Context) error  { return engHook(e, "ad") }
func (e *EItem) BeforeCreate(ctx context.Context) error { return engHook(e, "bc") }
func (e *EItem) AfterCreate(ctx context.Context) error  { return engHook(e, "ac") }
func (e *EItem) BeforeUpdate(ctx context.Context) error { return engHook(e, "bu") }
func (e *EItem) AfterUpdate(ctx context.Context) error  { return engHook(e, "au") }
func (e *EItem) BeforeDelete(ctx context.Context) error { return engHook(e, "bd") }
func (e *EItem) AfterDelete(ctx context.Context) error  { return engHook(e, "ad") }

// ---- models

type MemoPO struct {
	A int64
	B string
}

type FldPO struct {
	V    int64
	Name string `gorm:"type:varchar(64)"`
	Flag bool
	Rate float64
}

type RootPO struct {
	ID string `gorm:"primaryKey;type:varchar(64)"`
	FldPO
	Opt  *int64
	Memo MemoPO   `gorm:"embedded;embeddedPrefix:m_"`
	Attr *Attr    `gorm:"serializer:json;type:json"`
	Tags []string `gorm:"serializer:json;type:json"`
	At   time.Time
}

func (p *RootPO) GetID() string     { return p.ID }
func (p *RootPO) TableName() string { return "eng_root" }

type ItemPO struct {
	ID     string `gorm:"primaryKey;type:varchar(64)"`
	RootID string `gorm:"type:varchar(64)"`
	FldPO
	Opt  *int64
	Memo MemoPO `gorm:"embedded;embeddedPrefix:m_"`
	Attr *Attr  `gorm:"serializer:json;type:json"`
}

func (p *ItemPO) GetID() string     { return p.ID }
func (p *ItemPO) TableName() string { return "eng_item" }

type SubPO struct {
	ID     string `gorm:"primaryKey;type:varchar(64)"`
	ItemID string `gorm:"type:varchar(64)"`
	V      int64
	Name   string `gorm:"type:varchar(64)"`
}

func (p *SubPO) GetID() string     { return p.ID }
func (p *SubPO) TableName() string { return "eng_sub" }

type NotePO struct {
	ID     string `gorm:"primaryKey;type:varchar(64)"`
	RootID string `gorm:"type:varchar(64)"`
	Slot   string `gorm:"type:varchar(64)"`
	V      int64
	Name   string `gorm:"type:varchar(64)"`
}

func (p *NotePO) GetID() string     { return p.ID }
func (p *NotePO) TableName() string { return "eng_note" }

type MarkPO struct {
	ID     string `gorm:"primaryKey;type:varchar(64)"`
	Zone   string `gorm:"primaryKey;type:varchar(64)"`
	RootID string `gorm:"type:varchar(64)"`
	V      int64
	Name   string `gorm:"type:varchar(64)"`
}

func (p *MarkPO) GetID() string     { return p.ID }
func (p *MarkPO) TableName() string { return "eng_mark" }

type markConv struct{}

func (markConv) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
	if err := engConvErr(entity, op); err != nil {
		return nil, err
	}
	d := entity.(*EMark)
	return &MarkPO{ID: d.GetID(), Zone: d.Zone, RootID: parentID(parent), V: d.F.V, Name: d.F.Name}, nil
}

func (markConv) Model2Entity(po exec.IModel, do ddd.IEntity) error {
	if err := engModelErr(do); err != nil {
		return err
	}
	loadMark(po.(*MarkPO), do.(*EMark))
	return nil
}

// EvPO is the stored form of an event.
type EvPO struct {
	ID   string `gorm:"primaryKey;type:varchar(64)"`
	Type string `gorm:"type:varchar(64)"`
	Body string `gorm:"type:text"`
}

func (p *EvPO) GetID() string     { return p.ID }
func (p *EvPO) TableName() string { return "eng_event" }

func parentID(p ddd.IEntity) string {
	if p == nil {
		return ""
	}
	return p.GetID()
}

func fldPO(f EFld) FldPO { return FldPO{V: f.V, Name: f.Name, Flag: f.Flag, Rate: f.Rate} }

func (f *EFld) take(p FldPO) { f.V, f.Name, f.Flag, f.Rate = p.V, p.Name, p.Flag, p.Rate }

func loadRoot(p *RootPO, d *ERoot) {
	d.SetID(p.ID)
	f := EFld{Opt: p.Opt, MA: p.Memo.A, MB: p.Memo.B, Attr: p.Attr, Tags: p.Tags, At: p.At}
	f.take(p.FldPO)
	d.F = f.clone()
}

func loadItem(p *ItemPO, d *EItem) {
	d.SetID(p.ID)
	f := EFld{Opt: p.Opt, MA: p.Memo.A, MB: p.Memo.B, Attr: p.Attr}
	f.take(p.FldPO)
	d.F = f.clone()
}

func loadSub(p *SubPO, d *ESub) { d.SetID(p.ID); d.F = EFld{V: p.V, Name: p.Name} }
func loadNote(p *NotePO, d *ENote) {
	d.SetID(p.ID)
	d.F = EFld{V: p.V, Name: p.Name, Slot: p.Slot}
}

func loadMark(p *MarkPO, d *EMark) {
	d.SetID(p.ID)
	d.Zone = p.Zone
	d.F = EFld{V: p.V, Name: p.Name, Slot: p.Zone}
}

var engRefused any // panic of a registration that must be accepted

func init() {
	defer func() { engRefused = recover() }()
	exec.RegisterConverter(&EMark{}, markConv{})
	conv := func(e ddd.IEntity, to func(e, p ddd.IEntity) exec.IModel, from func(exec.IModel, ddd.IEntity)) {
		exec.RegisterEntity2Model(e, func(entity, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
			if err := engConvErr(entity, op); err != nil {
				return nil, err
			}
			return to(entity, parent), nil
		}, func(po exec.IModel, do ddd.IEntity) error {
			if err := engModelErr(do); err != nil {
				return err
			}
			from(po, do)
			return nil
		})
	}
	conv(&ERoot{}, func(e, p ddd.IEntity) exec.IModel {
		d := e.(*ERoot)
		f := d.F.clone()
		return &RootPO{ID: d.GetID(), FldPO: fldPO(f), Opt: f.Opt, Memo: MemoPO{f.MA, f.MB}, Attr: f.Attr, Tags: f.Tags, At: f.At}
	}, func(p exec.IModel, e ddd.IEntity) { loadRoot(p.(*RootPO), e.(*ERoot)) })
	conv(&EItem{}, func(e, p ddd.IEntity) exec.IModel {
		d := e.(*EItem)
		f := d.F.clone()
		return &ItemPO{ID: d.GetID(), RootID: parentID(p), FldPO: fldPO(f), Opt: f.Opt, Memo: MemoPO{f.MA, f.MB}, Attr: f.Attr}
	}, func(p exec.IModel, e ddd.IEntity) { loadItem(p.(*ItemPO), e.(*EItem)) })
	conv(&ESub{}, func(e, p ddd.IEntity) exec.IModel {
		d := e.(*ESub)
		return &SubPO{ID: d.GetID(), ItemID: parentID(p), V: d.F.V, Name: d.F.Name}
	}, func(p exec.IModel, e ddd.IEntity) { loadSub(p.(*SubPO), e.(*ESub)) })
	conv(&ENote{}, func(e, p ddd.IEntity) exec.IModel {
		d := e.(*ENote)
		return &NotePO{ID: d.GetID(), RootID: parentID(p), Slot: d.F.Slot, V: d.F.V, Name: d.F.Name}
	}, func(p exec.IModel, e ddd.IEntity) { loadNote(p.(*NotePO), e.(*ENote)) })
}

// ---- the row a shadow entity stands for, in the form the store keeps it

func jsonCol(v any, isNil bool) any {
	if isNil {
		return "null"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func optCol(p *int64) any {
	if p == nil {
		return nil
	}
	return *p
}

func boolCol(b bool) any {
	if b {
		return int64(1)
	}
	return int64(0)
}

const (
	kRoot = iota
	kItem
	kSub
	kNote
	kMark
	kBox
)

var engTables = []string{"eng_root", "eng_item", "eng_sub", "eng_note", "eng_mark"}
var engKind = map[string]int{"eng_root": kRoot, "eng_item": kItem, "eng_sub": kSub, "eng_note": kNote, "eng_mark": kMark}

func engRow(kind int, f *EFld, parent string) map[string]any {
	m := map[string]any{"v": f.V, "name": f.Name}
	switch kind {
	case kRoot, kItem:
		m["flag"], m["rate"] = boolCol(f.Flag), f.Rate
		m["opt"], m["m_a"], m["m_b"], m["attr"] = optCol(f.Opt), f.MA, f.MB, jsonCol(f.Attr, f.Attr == nil)
		if kind == kRoot {
			m["tags"] = jsonCol(f.Tags, f.Tags == nil)
			m["at"] = f.At.UTC().UnixMilli()
		} else {
			m["root_id"] = parent
		}
	case kSub:
		m["item_id"] = parent
	case kNote:
		m["root_id"], m["slot"] = parent, f.Slot
	case kMark:
		m["root_id"], m["zone"] = parent, f.Slot
	}
	return m
}

// storedRow normalises a row of the store for comparison.
func storedRow(r map[string]any) map[string]any {
	m := map[string]any{}
	for k, v := range r {
		if k == "id" {
			continue
		}
		if t, ok := v.(time.Time); ok {
			v = t.UTC().UnixMilli()
		}
		if v == nil && (k == "attr" || k == "tags") {
			v = "null"
		}
		m[k] = v
	}
	return m
}

func sameRow(a, b map[string]any) string {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return fmt.Sprintf("%s: %v instead of %v", k, w, v)
		}
	}
	return ""
}
