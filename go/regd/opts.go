package main

import (
	"reflect"

	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
)

// more devices, that start differently.
var more = []tm.Ctor{
	{Name: "openclose-empty", New: func(o ...resource.Option) tm.Dev {
		m := openclosepb.NewModel(o...)
		s := openclosepb.NewModelServer(m)
		return tm.Dev{Name: "openclose-empty", Model: m, Svcs: []tm.Svc{{Desc: traits.OpenCloseApi_ServiceDesc, Srv: s}}}
	}},
}

func writeMask(m *fieldmaskpb.FieldMask) []reflect.Value {
	if m == nil {
		return nil
	}
	o := resource.WithUpdateMask(m)
	return []reflect.Value{reflect.ValueOf(&o).Elem()}
}

// calmModes refers to modes that exist.
func calmModes(m protoreflect.Message) {
	if x, ok := m.Interface().(*traits.ModeValuesRelative); ok {
		x.Values = map[string]int32{"temperature": 1, "spin": -1}
	}
}

func hailID(d tm.Dev) string {
	for _, h := range d.Model.(*hailpb.Model).ListHails() {
		return h.Id
	}
	return ""
}
