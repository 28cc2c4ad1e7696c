package main

import (
	"context"
	"math/rand"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// value is a resource.Value as a model.
type value[T proto.Message] struct{ v *resource.Value }

func (m *value[T]) Zero() proto.Message { var t T; return t }

func (m *value[T]) GetValue(opts ...resource.ReadOption) proto.Message { return m.v.Get(opts...) }
func (m *value[T]) SetValue(msg T, opts ...resource.WriteOption) (proto.Message, error) {
	return m.v.Set(msg, opts...)
}
func (m *value[T]) PullValue(ctx context.Context, opts ...resource.ReadOption) <-chan *resource.ValueChange {
	return m.v.Pull(ctx, opts...)
}

// collection is a resource.Collection as a model.
type collection[T proto.Message] struct{ c *resource.Collection }

func (m *collection[T]) Zero() proto.Message { var t T; return t }

func (m *collection[T]) GetItem(id string, opts ...resource.ReadOption) (proto.Message, bool) {
	return m.c.Get(id, opts...)
}
func (m *collection[T]) ListItems(opts ...resource.ReadOption) []proto.Message { return m.c.List(opts...) }
func (m *collection[T]) AddItem(id string, msg T, opts ...resource.WriteOption) (proto.Message, error) {
	return m.c.Add(id, msg, opts...)
}
func (m *collection[T]) UpdateItem(id string, msg T, opts ...resource.WriteOption) (proto.Message, error) {
	return m.c.Update(id, msg, opts...)
}
func (m *collection[T]) DeleteItem(id string, opts ...resource.WriteOption) (proto.Message, error) {
	return m.c.Delete(id, opts...)
}
func (m *collection[T]) PullItems(ctx context.Context, opts ...resource.ReadOption) <-chan *resource.CollectionChange {
	return m.c.Pull(ctx, opts...)
}
func (m *collection[T]) PullItem(ctx context.Context, id string, opts ...resource.ReadOption) <-chan *resource.ValueChange {
	return m.c.PullID(ctx, id, opts...)
}

func core[T proto.Message](name string, zero func() T, opts ...resource.Option) []tm.Ctor {
	return []tm.Ctor{
		{Name: "value-" + name, New: func(o ...resource.Option) tm.Dev {
			o = append(append([]resource.Option{resource.WithInitialValue(zero())}, opts...), o...)
			return tm.Dev{Name: "value-" + name, Model: &value[T]{resource.NewValue(o...)}}
		}},
		{Name: "collection-" + name, New: func(o ...resource.Option) tm.Dev {
			o = append(append([]resource.Option{resource.WithInitialRecord("1", zero()), resource.WithRNG(rand.New(rand.NewSource(1)))}, opts...), o...)
			return tm.Dev{Name: "collection-" + name, Model: &collection[T]{resource.NewCollection(o...)}}
		}},
	}
}

func cores() []tm.Ctor {
	var out []tm.Ctor
	out = append(out, core("metadata", func() *traits.Metadata { return &traits.Metadata{Name: "1", More: map[string]string{"a": "b"}} })...)
	out = append(out, core("mode", func() *traits.ElectricMode {
		return &traits.ElectricMode{Id: "1", Segments: []*traits.ElectricMode_Segment{{Magnitude: 1}}}
	})...)
	out = append(out, core("temperature", func() *traits.AirTemperature { return &traits.AirTemperature{} }, resource.WithNoDuplicates())...)
	out = append(out, core("child", func() *traits.Child { return &traits.Child{Name: "1", Traits: []*traits.Trait{{Name: "t"}}} },
		resource.WithWritablePaths(&traits.Child{}, "traits", "parent"))...)
	return out
}
