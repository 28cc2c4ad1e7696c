// Package tm lists the trait models and devices of the library together with the gRPC services they implement.
package tm

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// Svc is a gRPC service implemented by a device.
type Svc struct {
	Desc grpc.ServiceDesc
	Srv  any
}

// Dev is one device.
type Dev struct {
	Name  string
	Model any // nil for memory devices
	Svcs  []Svc
}

// Ctor makes a new device.
type Ctor struct {
	Name string
	New  func(opts ...resource.Option) Dev
}

// All devices.
func All() []Ctor {
	dev := func(model any, more ...any) Dev {
		d := Dev{Model: model}
		for i := 0; i+1 < len(more); i += 2 {
			d.Svcs = append(d.Svcs, Svc{more[i].(grpc.ServiceDesc), more[i+1]})
		}
		return d
	}
	type opt = resource.Option
	all := []Ctor{
		{"access", func(o ...opt) Dev {
			m := accesspb.NewModel(o...)
			return dev(m, traits.AccessApi_ServiceDesc, accesspb.NewModelServer(m))
		}},
		{"airquality", func(o ...opt) Dev {
			m := airqualitysensorpb.NewModel(o...)
			return dev(m, traits.AirQualitySensorApi_ServiceDesc, airqualitysensorpb.NewModelServer(m))
		}},
		{"airtemperature", func(o ...opt) Dev {
			m := airtemperaturepb.NewModel(o...)
			return dev(m, traits.AirTemperatureApi_ServiceDesc, airtemperaturepb.NewModelServer(m))
		}},
		{"airtemperature-memory", func(o ...opt) Dev {
			return dev(nil, traits.AirTemperatureApi_ServiceDesc, airtemperaturepb.NewMemoryDevice())
		}},
		{"booking", func(o ...opt) Dev {
			m := bookingpb.NewModel(append([]opt{bookingpb.WithInitialBooking(&traits.Booking{Id: "1", Title: "one"})}, o...)...)
			return dev(m, traits.BookingApi_ServiceDesc, bookingpb.NewModelServer(m))
		}},
		{"count-memory", func(o ...opt) Dev {
			return dev(nil, traits.CountApi_ServiceDesc, countpb.NewMemoryDevice())
		}},
		{"electric", func(o ...opt) Dev {
			m := electricpb.NewModel(o...)
			_ = m.AddMode(&traits.ElectricMode{Id: "1", Title: "one", Normal: true})
			_ = m.AddMode(&traits.ElectricMode{Id: "2", Title: "two"})
			s := electricpb.NewModelServer(m)
			return dev(m, traits.ElectricApi_ServiceDesc, s, electricpb.MemorySettingsApi_ServiceDesc, s)
		}},
		{"emergency-memory", func(o ...opt) Dev {
			return dev(nil, traits.EmergencyApi_ServiceDesc, emergencypb.NewMemoryDevice())
		}},
		{"energystorage", func(o ...opt) Dev {
			m := energystoragepb.NewModel(o...)
			return dev(m, traits.EnergyStorageApi_ServiceDesc, energystoragepb.NewModelServer(m))
		}},
		{"enterleave", func(o ...opt) Dev {
			m := enterleavesensorpb.NewModel(o...)
			return dev(m, traits.EnterLeaveSensorApi_ServiceDesc, enterleavesensorpb.NewModelServer(m))
		}},
		{"fanspeed", func(o ...opt) Dev {
			m := fanspeedpb.NewModel(o...)
			return dev(m, traits.FanSpeedApi_ServiceDesc, fanspeedpb.NewModelServer(m))
		}},
		{"hail", func(o ...opt) Dev {
			m := hailpb.NewModel(append([]opt{hailpb.WithKeepAlive(-1)}, o...)...)
			_, _ = m.CreateHail(&traits.Hail{})
			return dev(m, traits.HailApi_ServiceDesc, hailpb.NewModelServer(m))
		}},
		{"light", func(o ...opt) Dev {
			m := lightpb.NewModel(o...)
			s := lightpb.NewModelServer(m)
			return dev(m, traits.LightApi_ServiceDesc, s, traits.LightInfo_ServiceDesc, s)
		}},
		{"light-memory", func(o ...opt) Dev {
			return dev(nil, traits.LightApi_ServiceDesc, lightpb.NewMemoryDevice())
		}},
		{"metadata", func(o ...opt) Dev {
			m := metadatapb.NewModel(o...)
			return dev(m, traits.MetadataApi_ServiceDesc, metadatapb.NewModelServer(m))
		}},
		{"metadata-collection", func(o ...opt) Dev {
			m := metadatapb.NewCollection(o...)
			_, _ = m.UpdateMetadata("1", &traits.Metadata{Name: "1"}, resource.WithCreateIfAbsent())
			return dev(m, traits.MetadataApi_ServiceDesc, metadatapb.NewCollectionServer(m))
		}},
		{"meter", func(o ...opt) Dev {
			m := meterpb.NewModel(o...)
			return dev(m, traits.MeterApi_ServiceDesc, meterpb.NewModelServer(m))
		}},
		{"mode", func(o ...opt) Dev {
			m := modepb.NewModel()
			return dev(m, traits.ModeApi_ServiceDesc, modepb.NewModelServer(m))
		}},
		{"occupancy", func(o ...opt) Dev {
			m := occupancysensorpb.NewModel(o...)
			return dev(m, traits.OccupancySensorApi_ServiceDesc, occupancysensorpb.NewModelServer(m))
		}},
		{"onoff", func(o ...opt) Dev {
			m := onoffpb.NewModel(o...)
			return dev(m, traits.OnOffApi_ServiceDesc, onoffpb.NewModelServer(m))
		}},
		{"openclose", func(o ...opt) Dev {
			m := openclosepb.NewModel(append([]opt{openclosepb.WithInitialPositions(
				&traits.OpenClosePosition{Direction: traits.OpenClosePosition_UP, OpenPercent: 10},
				&traits.OpenClosePosition{Direction: traits.OpenClosePosition_DOWN, OpenPercent: 20},
			)}, o...)...)
			s := openclosepb.NewModelServer(m)
			return dev(m, traits.OpenCloseApi_ServiceDesc, s, traits.OpenCloseInfo_ServiceDesc, s)
		}},
		{"parent", func(o ...opt) Dev {
			m := parentpb.NewModel(o...)
			m.AddChildTrait("1", trait.Light, trait.OnOff)
			m.AddChildTrait("2", trait.Mode)
			return dev(m, traits.ParentApi_ServiceDesc, parentpb.NewModelServer(m))
		}},
		{"press", func(o ...opt) Dev {
			m := presspb.NewModel(traits.PressedState_UNPRESSED)
			return dev(m, traits.PressApi_ServiceDesc, presspb.NewModelServer(m))
		}},
		{"publication", func(o ...opt) Dev {
			m := publicationpb.NewModel(o...)
			_, _ = m.CreatePublication(&traits.Publication{Id: "1", Body: []byte("one")})
			return dev(m, traits.PublicationApi_ServiceDesc, publicationpb.NewModelServer(m))
		}},
		{"speaker-memory", func(o ...opt) Dev {
			return dev(nil, traits.SpeakerApi_ServiceDesc, speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 3}))
		}},
		{"vending", func(o ...opt) Dev {
			m := vendingpb.NewModel(o...)
			_, _ = m.CreateConsumable(&traits.Consumable{Name: "1", DisplayName: "one"})
			_, _ = m.CreateStock(&traits.Consumable_Stock{Consumable: "1", Remaining: &traits.Consumable_Quantity{Amount: 50, Unit: traits.Consumable_NO_UNIT}})
			return dev(m, traits.VendingApi_ServiceDesc, vendingpb.NewModelServer(m))
		}},
		{"waste", func(o ...opt) Dev {
			m := wastepb.NewModel(o...)
			return dev(m, traits.WasteApi_ServiceDesc, wastepb.NewModelServer(m))
		}},
	}
	for i := range all {
		name, f := all[i].Name, all[i].New
		all[i].New = func(o ...opt) Dev { d := f(o...); d.Name = name; return d }
	}
	return all
}

// Conn is an in-process connection to the service.
func (s Svc) Conn() grpc.ClientConnInterface { return wrap.ServerToClient(s.Desc, s.Srv) }

// Method of a service.
type Method struct {
	Name, Full   string
	In, Out      protoreflect.MessageType
	ClientStream bool
	ServerStream bool
	InMD, OutMD  protoreflect.MessageDescriptor
	SD           protoreflect.ServiceDescriptor
}

// Methods of a registered service.
func Methods(service string) []Method {
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(service))
	if err != nil {
		panic(err)
	}
	sd := d.(protoreflect.ServiceDescriptor)
	var out []Method
	for i := 0; i < sd.Methods().Len(); i++ {
		md := sd.Methods().Get(i)
		in, err := protoregistry.GlobalTypes.FindMessageByName(md.Input().FullName())
		if err != nil {
			panic(err)
		}
		res, err := protoregistry.GlobalTypes.FindMessageByName(md.Output().FullName())
		if err != nil {
			panic(err)
		}
		out = append(out, Method{Name: string(md.Name()), Full: fmt.Sprintf("/%s/%s", service, md.Name()), In: in, Out: res,
			ClientStream: md.IsStreamingClient(), ServerStream: md.IsStreamingServer(), InMD: md.Input(), OutMD: md.Output(), SD: sd})
	}
	return out
}

var (
	ctxT   = reflect.TypeOf((*context.Context)(nil)).Elem()
	roT    = reflect.TypeOf([]resource.ReadOption{})
	woT    = reflect.TypeOf([]resource.WriteOption{})
	protoT = reflect.TypeOf((*proto.Message)(nil)).Elem()
)

// Pull is a subscription method of a model.
type Pull struct {
	Name string
	ByID bool
	// Open starts it; the result is a channel
	Open func(ctx context.Context, id string, opts ...resource.ReadOption) reflect.Value
}

// Pulls finds the model's subscription methods.
func Pulls(model any) []Pull {
	var out []Pull
	if model == nil {
		return nil
	}
	v := reflect.ValueOf(model)
	for i := 0; i < v.NumMethod(); i++ {
		t, m := v.Type().Method(i), v.Method(i)
		mt := m.Type()
		if !strings.HasPrefix(t.Name, "Pull") || !mt.IsVariadic() || mt.NumOut() != 1 || mt.Out(0).Kind() != reflect.Chan || mt.NumIn() < 2 || mt.In(0) != ctxT || mt.In(mt.NumIn()-1) != roT {
			continue
		}
		byID := mt.NumIn() == 3 && mt.In(1).Kind() == reflect.String
		if mt.NumIn() != 2 && !byID {
			continue
		}
		out = append(out, Pull{Name: t.Name, ByID: byID, Open: func(ctx context.Context, id string, opts ...resource.ReadOption) reflect.Value {
			args := []reflect.Value{reflect.ValueOf(ctx)}
			if byID {
				args = append(args, reflect.ValueOf(id))
			}
			for _, o := range opts {
				args = append(args, reflect.ValueOf(&o).Elem())
			}
			return m.Call(args)[0]
		}})
	}
	return out
}

// Write is a method of a model that changes something.
type Write struct {
	Name string
	Call func(r *rand.Rand, opts ...resource.WriteOption) []reflect.Value
}

// Fix makes a generated message acceptable more often: ids and names refer to something that may exist.
func Fix(r *rand.Rand, m proto.Message) {
	rm := m.ProtoReflect()
	fds := rm.Descriptor().Fields()
	for _, n := range []string{"id", "name", "consumable"} {
		if fd := fds.ByName(protoreflect.Name(n)); fd != nil && fd.Kind() == protoreflect.StringKind && !fd.IsList() {
			rm.Set(fd, protoreflect.ValueOfString([]string{"1", "2", "3"}[r.Intn(3)]))
		}
	}
}

// Writes finds the model's changing methods.
func Writes(model any) []Write {
	var out []Write
	if model == nil {
		return nil
	}
	v := reflect.ValueOf(model)
	for i := 0; i < v.NumMethod(); i++ {
		t, m := v.Type().Method(i), v.Method(i)
		mt := m.Type()
		is := false
		for _, p := range []string{"Update", "Set", "Create", "Add", "Record", "Merge", "Change", "Delete", "Remove", "Reset", "Dispense", "Generate"} {
			is = is || strings.HasPrefix(t.Name, p)
		}
		if !is {
			continue
		}
		ok := true
		n := mt.NumIn()
		opts := mt.IsVariadic() && mt.In(n-1) == woT
		if mt.IsVariadic() {
			n--
		}
		for j := 0; j < n; j++ {
			k := mt.In(j).Kind()
			if !(mt.In(j).Implements(protoT) || k == reflect.String || k == reflect.Float32 || k == reflect.Int32) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		out = append(out, Write{Name: t.Name, Call: func(r *rand.Rand, wo ...resource.WriteOption) []reflect.Value {
			var args []reflect.Value
			for j := 0; j < n; j++ {
				at := mt.In(j)
				switch {
				case at.Implements(protoT):
					msg := reflect.New(at.Elem()).Interface().(proto.Message)
					vlib.Gen{R: r, P: 0.5, Depth: 3}.Fill(msg)
					Fix(r, msg)
					args = append(args, reflect.ValueOf(msg))
				case at.Kind() == reflect.String:
					args = append(args, reflect.ValueOf([]string{"1", "2", "3"}[r.Intn(3)]).Convert(at))
				case at.Kind() == reflect.Float32:
					args = append(args, reflect.ValueOf(float32(r.Intn(100))))
				default:
					args = append(args, reflect.ValueOf(r.Intn(3)).Convert(at))
				}
			}
			if opts {
				for _, o := range wo {
					args = append(args, reflect.ValueOf(&o).Elem())
				}
			} else if mt.IsVariadic() && mt.In(n).Elem().Kind() == reflect.String {
				for k := r.Intn(3); k >= 0; k-- {
					args = append(args, reflect.ValueOf([]string{"a", "b", "c"}[r.Intn(3)]).Convert(mt.In(n).Elem()))
				}
			}
			return m.Call(args)
		}})
	}
	return out
}
