package main

import (
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

type config struct {
	name string
	fn   func() (got, want []proto.Message)
}

func ms[T proto.Message](l ...T) []proto.Message {
	r := make([]proto.Message, len(l))
	for i, m := range l {
		r[i] = m
	}
	return r
}

func clone[T proto.Message](m T) T { return proto.Clone(m).(T) }

func configured() []config {
	f32 := func(f float32) *float32 { return &f }
	i32 := func(i int32) *int32 { return &i }
	return []config{
		{"airquality", func() (a, b []proto.Message) {
			x := &traits.AirQuality{CarbonDioxideLevel: f32(3)}
			m := airqualitysensorpb.NewModel(airqualitysensorpb.WithInitialAirQuality(clone(x)))
			g, _ := m.GetAirQuality()
			return ms(g), ms(x)
		}},
		{"airtemperature", func() (a, b []proto.Message) {
			x := &traits.AirTemperature{AmbientTemperature: &types.Temperature{ValueCelsius: 9}}
			m := airtemperaturepb.NewModel(airtemperaturepb.WithInitialAirTemperature(clone(x)))
			g, _ := m.GetAirTemperature()
			return ms(g), ms(x)
		}},
		{"booking", func() (a, b []proto.Message) {
			x, y := &traits.Booking{Id: "x", OwnerName: "me"}, &traits.Booking{Id: "y", Title: "t"}
			m := bookingpb.NewModel(bookingpb.WithInitialBooking(clone(x)), bookingpb.WithInitialBooking(clone(y)))
			return ms(m.ListBookings()...), ms(x, y)
		}},
		{"electric demand", func() (a, b []proto.Message) {
			x := &traits.ElectricDemand{Current: 3, Rating: 7}
			return ms(electricpb.NewModel(electricpb.WithInitialDemand(clone(x))).Demand()), ms(x)
		}},
		{"electric active mode", func() (a, b []proto.Message) {
			x := &traits.ElectricMode{Id: "x", Title: "X"}
			return ms(electricpb.NewModel(electricpb.WithInitialActiveMode(clone(x))).ActiveMode()), ms(x)
		}},
		{"electric modes", func() (a, b []proto.Message) {
			x, y := &traits.ElectricMode{Id: "x", Title: "X"}, &traits.ElectricMode{Id: "y", Normal: true}
			return ms(electricpb.NewModel(electricpb.WithInitialMode(clone(x), clone(y))).Modes()...), ms(x, y)
		}},
		{"energy level", func() (a, b []proto.Message) {
			x := &traits.EnergyLevel{PluggedIn: true}
			m := energystoragepb.NewModel(energystoragepb.WithInitialEnergyLevel(clone(x)))
			g, _ := m.GetEnergyLevel()
			return ms(g), ms(x)
		}},
		{"enter leave event", func() (a, b []proto.Message) {
			x := &traits.EnterLeaveEvent{EnterTotal: i32(4), LeaveTotal: i32(2), Direction: traits.EnterLeaveEvent_LEAVE}
			m := enterleavesensorpb.NewModel(enterleavesensorpb.WithInitialEnterLeaveEvent(clone(x)))
			g, _ := m.GetEnterLeaveEvent()
			return ms(g), ms(x)
		}},
		{"fan speed", func() (a, b []proto.Message) {
			x := &traits.FanSpeed{Percentage: 40, Preset: "med", PresetIndex: 2}
			return ms(fanspeedpb.NewModel(fanspeedpb.WithInitialFanSpeed(clone(x))).FanSpeed()), ms(x)
		}},
		{"hail records", func() (a, b []proto.Message) {
			x := &traits.Hail{Id: "h", State: traits.Hail_CALLED}
			return ms(hailpb.NewModel(resource.WithInitialRecord("h", clone(x))).ListHails()...), ms(x)
		}},
		{"brightness", func() (a, b []proto.Message) {
			x := &traits.Brightness{LevelPercent: 30}
			g, _ := lightpb.NewModel(lightpb.WithInitialBrightness(clone(x))).GetBrightness()
			return ms(g), ms(x)
		}},
		{"light presets", func() (a, b []proto.Message) {
			x, y := &traits.LightPreset{Name: "x", Title: "X"}, &traits.LightPreset{Name: "y"}
			return ms(lightpb.NewModel(lightpb.WithPreset(10, clone(x)), lightpb.WithPreset(20, clone(y))).ListPresets()...), ms(x, y)
		}},
		{"light preset level", func() (a, b []proto.Message) {
			x, y := &traits.LightPreset{Name: "x", Title: "X"}, &traits.LightPreset{Name: "y"}
			g, _ := lightpb.NewModel(lightpb.WithPreset(10, clone(x)), lightpb.WithPreset(20, clone(y))).UpdateBrightness(&traits.Brightness{Preset: &traits.LightPreset{Name: "y"}})
			return ms(&traits.Brightness{LevelPercent: g.LevelPercent}), ms(&traits.Brightness{LevelPercent: 20})
		}},
		{"metadata", func() (a, b []proto.Message) {
			x := &traits.Metadata{Name: "x"}
			g, _ := metadatapb.NewModel(resource.WithInitialValue(clone(x))).GetMetadata()
			return ms(g), ms(x)
		}},
		{"occupancy", func() (a, b []proto.Message) {
			x := &traits.Occupancy{State: traits.Occupancy_OCCUPIED, PeopleCount: 3}
			g, _ := occupancysensorpb.NewModel(occupancysensorpb.WithInitialOccupancy(clone(x))).GetOccupancy()
			return ms(g), ms(x)
		}},
		{"onoff", func() (a, b []proto.Message) {
			x := &traits.OnOff{State: traits.OnOff_ON}
			g, _ := onoffpb.NewModel(onoffpb.WithInitialOnOff(clone(x))).GetOnOff()
			return ms(g), ms(x)
		}},
		{"positions", func() (a, b []proto.Message) {
			x, y := &traits.OpenClosePosition{OpenPercent: 10, Direction: traits.OpenClosePosition_UP}, &traits.OpenClosePosition{OpenPercent: 20, Direction: traits.OpenClosePosition_DOWN}
			g, _ := openclosepb.NewModel(openclosepb.WithInitialPositions(clone(x), clone(y))).GetPositions()
			return ms(g.States...), ms(x, y)
		}},
		{"position presets", func() (a, b []proto.Message) {
			x, y := &traits.OpenClosePositions_Preset{Name: "x", Title: "X"}, &traits.OpenClosePositions_Preset{Name: "y"}
			m := openclosepb.NewModel(openclosepb.WithPreset(clone(x), &traits.OpenClosePosition{OpenPercent: 1}), openclosepb.WithPreset(clone(y), &traits.OpenClosePosition{OpenPercent: 2}))
			return ms(m.ListPresets()...), ms(x, y)
		}},
		{"position preset values", func() (a, b []proto.Message) {
			x, y := &traits.OpenClosePositions_Preset{Name: "x"}, &traits.OpenClosePositions_Preset{Name: "y"}
			m := openclosepb.NewModel(openclosepb.WithPreset(clone(x), &traits.OpenClosePosition{OpenPercent: 1}), openclosepb.WithPreset(clone(y), &traits.OpenClosePosition{OpenPercent: 2}))
			g, _ := m.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "y"}})
			return ms(g.GetStates()...), ms(&traits.OpenClosePosition{OpenPercent: 2})
		}},
		{"children", func() (a, b []proto.Message) {
			x, y := &traits.Child{Name: "x", Traits: []*traits.Trait{{Name: "a"}}}, &traits.Child{Name: "y"}
			return ms(parentpb.NewModel(parentpb.WithInitialChildren(clone(x)), parentpb.WithInitialChildren(clone(y))).ListChildren()...), ms(x, y)
		}},
		{"pressed state", func() (a, b []proto.Message) {
			g := presspb.NewModel(traits.PressedState_PRESSED).GetPressedState()
			return ms(&traits.PressedState{State: g.State}), ms(&traits.PressedState{State: traits.PressedState_PRESSED})
		}},
		{"publications", func() (a, b []proto.Message) {
			x, y := &traits.Publication{Id: "x", Version: "1"}, &traits.Publication{Id: "y", Body: []byte("b")}
			return ms(publicationpb.NewModel(publicationpb.WithInitialPublication(clone(x)), publicationpb.WithInitialPublication(clone(y))).ListPublications()...), ms(x, y)
		}},
		{"volume", func() (a, b []proto.Message) {
			x := &types.AudioLevel{Gain: 3}
			g, _ := speakerpb.NewMemoryDevice(clone(x)).GetVolume(ctx, &traits.GetSpeakerVolumeRequest{})
			return ms(g), ms(x)
		}},
		{"vending stock", func() (a, b []proto.Message) {
			x, y := &traits.Consumable_Stock{Consumable: "x", Dispensing: true}, &traits.Consumable_Stock{Consumable: "y"}
			m := vendingpb.NewModel(vendingpb.WithInitialStock(clone(x)), vendingpb.WithInitialStock(clone(y)))
			return ms(m.ListInventory()...), ms(x, y)
		}},
		{"vending consumables", func() (a, b []proto.Message) {
			x, y := &traits.Consumable{Name: "x", Title: "X"}, &traits.Consumable{Name: "y"}
			m := vendingpb.NewModel(vendingpb.WithInitialConsumable(clone(x)), vendingpb.WithInitialConsumable(clone(y)))
			return ms(m.ListConsumables()...), ms(x, y)
		}},
		{"vending consumables and stock", func() (a, b []proto.Message) {
			x, y := &traits.Consumable{Name: "x", Title: "X"}, &traits.Consumable_Stock{Consumable: "x"}
			m := vendingpb.NewModel(vendingpb.WithInitialConsumable(clone(x)), vendingpb.WithInitialStock(clone(y)))
			return append(ms(m.ListConsumables()...), ms(m.ListInventory()...)...), append(ms(x), y)
		}},
		{"vending resource options", func() (a, b []proto.Message) {
			// an option for one of the resources does not concern the other
			m := vendingpb.NewModel(vendingpb.WithConsumablesOption(resource.WithWritablePaths(&traits.Consumable{}, "title")))
			_, err := m.UpdateStock(&traits.Consumable_Stock{Consumable: "x", Dispensing: true}, resource.WithCreateIfAbsent())
			if err != nil {
				return nil, ms(&traits.Consumable_Stock{Consumable: "x", Dispensing: true})
			}
			return ms(m.ListInventory()...), ms(&traits.Consumable_Stock{Consumable: "x", Dispensing: true})
		}},
	}
}
