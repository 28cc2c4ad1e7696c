// Package rtab lists the routers and wrappers of the library, one entry per trait service.
package rtab

import (
	"google.golang.org/grpc"

	api_traits "github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/router"
	accesspb "github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	airqualitysensorpb "github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	airtemperaturepb "github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	bookingpb "github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	brightnesssensorpb "github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	channelpb "github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	colorpb "github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	countpb "github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	electricpb "github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	emergencypb "github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	energystoragepb "github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	enterleavesensorpb "github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	extendretractpb "github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	fanspeedpb "github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	hailpb "github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	inputselectpb "github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	lightpb "github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	lockunlockpb "github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	metadatapb "github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	meterpb "github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	microphonepb "github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	modepb "github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	motionsensorpb "github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	occupancysensorpb "github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	onoffpb "github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	openclosepb "github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	parentpb "github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	presspb "github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	ptzpb "github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	publicationpb "github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	speakerpb "github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	temperaturepb "github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	vendingpb "github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	wastepb "github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

// Entry is one trait service.
type Entry struct {
	Pkg     string
	Desc    *grpc.ServiceDesc
	Client  func(grpc.ClientConnInterface) any
	Router  func(...router.Option) router.Router
	Factory func(func(string) (any, error)) router.Option
	Wrap    func(any) any
}

// All services.
var All = []Entry{
	{
		Pkg:    "accesspb",
		Desc:   &api_traits.AccessApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewAccessApiClient(c) },
		Router: func(o ...router.Option) router.Router { return accesspb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return accesspb.WithAccessApiClientFactory(func(n string) (api_traits.AccessApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.AccessApiClient), err
			})
		},
		Wrap: func(s any) any { return accesspb.WrapApi(s.(api_traits.AccessApiServer)) },
	},
	{
		Pkg:    "airqualitysensorpb",
		Desc:   &api_traits.AirQualitySensorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewAirQualitySensorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return airqualitysensorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(n string) (api_traits.AirQualitySensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.AirQualitySensorApiClient), err
			})
		},
		Wrap: func(s any) any { return airqualitysensorpb.WrapApi(s.(api_traits.AirQualitySensorApiServer)) },
	},
	{
		Pkg:    "airqualitysensorpb",
		Desc:   &api_traits.AirQualitySensorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewAirQualitySensorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return airqualitysensorpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(n string) (api_traits.AirQualitySensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.AirQualitySensorInfoClient), err
			})
		},
		Wrap: func(s any) any { return airqualitysensorpb.WrapInfo(s.(api_traits.AirQualitySensorInfoServer)) },
	},
	{
		Pkg:    "airtemperaturepb",
		Desc:   &api_traits.AirTemperatureApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewAirTemperatureApiClient(c) },
		Router: func(o ...router.Option) router.Router { return airtemperaturepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureApiClientFactory(func(n string) (api_traits.AirTemperatureApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.AirTemperatureApiClient), err
			})
		},
		Wrap: func(s any) any { return airtemperaturepb.WrapApi(s.(api_traits.AirTemperatureApiServer)) },
	},
	{
		Pkg:    "airtemperaturepb",
		Desc:   &api_traits.AirTemperatureInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewAirTemperatureInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return airtemperaturepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(n string) (api_traits.AirTemperatureInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.AirTemperatureInfoClient), err
			})
		},
		Wrap: func(s any) any { return airtemperaturepb.WrapInfo(s.(api_traits.AirTemperatureInfoServer)) },
	},
	{
		Pkg:    "bookingpb",
		Desc:   &api_traits.BookingApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewBookingApiClient(c) },
		Router: func(o ...router.Option) router.Router { return bookingpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingApiClientFactory(func(n string) (api_traits.BookingApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.BookingApiClient), err
			})
		},
		Wrap: func(s any) any { return bookingpb.WrapApi(s.(api_traits.BookingApiServer)) },
	},
	{
		Pkg:    "bookingpb",
		Desc:   &api_traits.BookingInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewBookingInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return bookingpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingInfoClientFactory(func(n string) (api_traits.BookingInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.BookingInfoClient), err
			})
		},
		Wrap: func(s any) any { return bookingpb.WrapInfo(s.(api_traits.BookingInfoServer)) },
	},
	{
		Pkg:    "brightnesssensorpb",
		Desc:   &api_traits.BrightnessSensorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewBrightnessSensorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return brightnesssensorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(n string) (api_traits.BrightnessSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.BrightnessSensorApiClient), err
			})
		},
		Wrap: func(s any) any { return brightnesssensorpb.WrapApi(s.(api_traits.BrightnessSensorApiServer)) },
	},
	{
		Pkg:    "brightnesssensorpb",
		Desc:   &api_traits.BrightnessSensorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewBrightnessSensorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return brightnesssensorpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(n string) (api_traits.BrightnessSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.BrightnessSensorInfoClient), err
			})
		},
		Wrap: func(s any) any { return brightnesssensorpb.WrapInfo(s.(api_traits.BrightnessSensorInfoServer)) },
	},
	{
		Pkg:    "channelpb",
		Desc:   &api_traits.ChannelApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewChannelApiClient(c) },
		Router: func(o ...router.Option) router.Router { return channelpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelApiClientFactory(func(n string) (api_traits.ChannelApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ChannelApiClient), err
			})
		},
		Wrap: func(s any) any { return channelpb.WrapApi(s.(api_traits.ChannelApiServer)) },
	},
	{
		Pkg:    "channelpb",
		Desc:   &api_traits.ChannelInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewChannelInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return channelpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelInfoClientFactory(func(n string) (api_traits.ChannelInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ChannelInfoClient), err
			})
		},
		Wrap: func(s any) any { return channelpb.WrapInfo(s.(api_traits.ChannelInfoServer)) },
	},
	{
		Pkg:    "colorpb",
		Desc:   &api_traits.ColorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewColorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return colorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorApiClientFactory(func(n string) (api_traits.ColorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ColorApiClient), err
			})
		},
		Wrap: func(s any) any { return colorpb.WrapApi(s.(api_traits.ColorApiServer)) },
	},
	{
		Pkg:    "colorpb",
		Desc:   &api_traits.ColorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewColorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return colorpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorInfoClientFactory(func(n string) (api_traits.ColorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ColorInfoClient), err
			})
		},
		Wrap: func(s any) any { return colorpb.WrapInfo(s.(api_traits.ColorInfoServer)) },
	},
	{
		Pkg:    "countpb",
		Desc:   &api_traits.CountApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewCountApiClient(c) },
		Router: func(o ...router.Option) router.Router { return countpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountApiClientFactory(func(n string) (api_traits.CountApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.CountApiClient), err
			})
		},
		Wrap: func(s any) any { return countpb.WrapApi(s.(api_traits.CountApiServer)) },
	},
	{
		Pkg:    "countpb",
		Desc:   &api_traits.CountInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewCountInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return countpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountInfoClientFactory(func(n string) (api_traits.CountInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.CountInfoClient), err
			})
		},
		Wrap: func(s any) any { return countpb.WrapInfo(s.(api_traits.CountInfoServer)) },
	},
	{
		Pkg:    "electricpb",
		Desc:   &api_traits.ElectricApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewElectricApiClient(c) },
		Router: func(o ...router.Option) router.Router { return electricpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricApiClientFactory(func(n string) (api_traits.ElectricApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ElectricApiClient), err
			})
		},
		Wrap: func(s any) any { return electricpb.WrapApi(s.(api_traits.ElectricApiServer)) },
	},
	{
		Pkg:    "electricpb",
		Desc:   &api_traits.ElectricInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewElectricInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return electricpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricInfoClientFactory(func(n string) (api_traits.ElectricInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ElectricInfoClient), err
			})
		},
		Wrap: func(s any) any { return electricpb.WrapInfo(s.(api_traits.ElectricInfoServer)) },
	},
	{
		Pkg:    "electricpb",
		Desc:   &electricpb.MemorySettingsApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(c) },
		Router: func(o ...router.Option) router.Router { return electricpb.NewMemorySettingsApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithMemorySettingsApiClientFactory(func(n string) (electricpb.MemorySettingsApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(electricpb.MemorySettingsApiClient), err
			})
		},
		Wrap: func(s any) any { return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer)) },
	},
	{
		Pkg:    "emergencypb",
		Desc:   &api_traits.EmergencyApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEmergencyApiClient(c) },
		Router: func(o ...router.Option) router.Router { return emergencypb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyApiClientFactory(func(n string) (api_traits.EmergencyApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EmergencyApiClient), err
			})
		},
		Wrap: func(s any) any { return emergencypb.WrapApi(s.(api_traits.EmergencyApiServer)) },
	},
	{
		Pkg:    "emergencypb",
		Desc:   &api_traits.EmergencyInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEmergencyInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return emergencypb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyInfoClientFactory(func(n string) (api_traits.EmergencyInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EmergencyInfoClient), err
			})
		},
		Wrap: func(s any) any { return emergencypb.WrapInfo(s.(api_traits.EmergencyInfoServer)) },
	},
	{
		Pkg:    "energystoragepb",
		Desc:   &api_traits.EnergyStorageApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEnergyStorageApiClient(c) },
		Router: func(o ...router.Option) router.Router { return energystoragepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageApiClientFactory(func(n string) (api_traits.EnergyStorageApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EnergyStorageApiClient), err
			})
		},
		Wrap: func(s any) any { return energystoragepb.WrapApi(s.(api_traits.EnergyStorageApiServer)) },
	},
	{
		Pkg:    "energystoragepb",
		Desc:   &api_traits.EnergyStorageInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEnergyStorageInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return energystoragepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageInfoClientFactory(func(n string) (api_traits.EnergyStorageInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EnergyStorageInfoClient), err
			})
		},
		Wrap: func(s any) any { return energystoragepb.WrapInfo(s.(api_traits.EnergyStorageInfoServer)) },
	},
	{
		Pkg:    "enterleavesensorpb",
		Desc:   &api_traits.EnterLeaveSensorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEnterLeaveSensorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return enterleavesensorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(n string) (api_traits.EnterLeaveSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EnterLeaveSensorApiClient), err
			})
		},
		Wrap: func(s any) any { return enterleavesensorpb.WrapApi(s.(api_traits.EnterLeaveSensorApiServer)) },
	},
	{
		Pkg:    "enterleavesensorpb",
		Desc:   &api_traits.EnterLeaveSensorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewEnterLeaveSensorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return enterleavesensorpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(n string) (api_traits.EnterLeaveSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.EnterLeaveSensorInfoClient), err
			})
		},
		Wrap: func(s any) any { return enterleavesensorpb.WrapInfo(s.(api_traits.EnterLeaveSensorInfoServer)) },
	},
	{
		Pkg:    "extendretractpb",
		Desc:   &api_traits.ExtendRetractApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewExtendRetractApiClient(c) },
		Router: func(o ...router.Option) router.Router { return extendretractpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractApiClientFactory(func(n string) (api_traits.ExtendRetractApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ExtendRetractApiClient), err
			})
		},
		Wrap: func(s any) any { return extendretractpb.WrapApi(s.(api_traits.ExtendRetractApiServer)) },
	},
	{
		Pkg:    "extendretractpb",
		Desc:   &api_traits.ExtendRetractInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewExtendRetractInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return extendretractpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractInfoClientFactory(func(n string) (api_traits.ExtendRetractInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ExtendRetractInfoClient), err
			})
		},
		Wrap: func(s any) any { return extendretractpb.WrapInfo(s.(api_traits.ExtendRetractInfoServer)) },
	},
	{
		Pkg:    "fanspeedpb",
		Desc:   &api_traits.FanSpeedApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewFanSpeedApiClient(c) },
		Router: func(o ...router.Option) router.Router { return fanspeedpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedApiClientFactory(func(n string) (api_traits.FanSpeedApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.FanSpeedApiClient), err
			})
		},
		Wrap: func(s any) any { return fanspeedpb.WrapApi(s.(api_traits.FanSpeedApiServer)) },
	},
	{
		Pkg:    "fanspeedpb",
		Desc:   &api_traits.FanSpeedInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewFanSpeedInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return fanspeedpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedInfoClientFactory(func(n string) (api_traits.FanSpeedInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.FanSpeedInfoClient), err
			})
		},
		Wrap: func(s any) any { return fanspeedpb.WrapInfo(s.(api_traits.FanSpeedInfoServer)) },
	},
	{
		Pkg:    "hailpb",
		Desc:   &api_traits.HailApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewHailApiClient(c) },
		Router: func(o ...router.Option) router.Router { return hailpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailApiClientFactory(func(n string) (api_traits.HailApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.HailApiClient), err
			})
		},
		Wrap: func(s any) any { return hailpb.WrapApi(s.(api_traits.HailApiServer)) },
	},
	{
		Pkg:    "hailpb",
		Desc:   &api_traits.HailInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewHailInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return hailpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailInfoClientFactory(func(n string) (api_traits.HailInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.HailInfoClient), err
			})
		},
		Wrap: func(s any) any { return hailpb.WrapInfo(s.(api_traits.HailInfoServer)) },
	},
	{
		Pkg:    "inputselectpb",
		Desc:   &api_traits.InputSelectApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewInputSelectApiClient(c) },
		Router: func(o ...router.Option) router.Router { return inputselectpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectApiClientFactory(func(n string) (api_traits.InputSelectApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.InputSelectApiClient), err
			})
		},
		Wrap: func(s any) any { return inputselectpb.WrapApi(s.(api_traits.InputSelectApiServer)) },
	},
	{
		Pkg:    "inputselectpb",
		Desc:   &api_traits.InputSelectInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewInputSelectInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return inputselectpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectInfoClientFactory(func(n string) (api_traits.InputSelectInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.InputSelectInfoClient), err
			})
		},
		Wrap: func(s any) any { return inputselectpb.WrapInfo(s.(api_traits.InputSelectInfoServer)) },
	},
	{
		Pkg:    "lightpb",
		Desc:   &api_traits.LightApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewLightApiClient(c) },
		Router: func(o ...router.Option) router.Router { return lightpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightApiClientFactory(func(n string) (api_traits.LightApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.LightApiClient), err
			})
		},
		Wrap: func(s any) any { return lightpb.WrapApi(s.(api_traits.LightApiServer)) },
	},
	{
		Pkg:    "lightpb",
		Desc:   &api_traits.LightInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewLightInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return lightpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightInfoClientFactory(func(n string) (api_traits.LightInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.LightInfoClient), err
			})
		},
		Wrap: func(s any) any { return lightpb.WrapInfo(s.(api_traits.LightInfoServer)) },
	},
	{
		Pkg:    "lockunlockpb",
		Desc:   &api_traits.LockUnlockApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewLockUnlockApiClient(c) },
		Router: func(o ...router.Option) router.Router { return lockunlockpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockApiClientFactory(func(n string) (api_traits.LockUnlockApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.LockUnlockApiClient), err
			})
		},
		Wrap: func(s any) any { return lockunlockpb.WrapApi(s.(api_traits.LockUnlockApiServer)) },
	},
	{
		Pkg:    "lockunlockpb",
		Desc:   &api_traits.LockUnlockInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewLockUnlockInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return lockunlockpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockInfoClientFactory(func(n string) (api_traits.LockUnlockInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.LockUnlockInfoClient), err
			})
		},
		Wrap: func(s any) any { return lockunlockpb.WrapInfo(s.(api_traits.LockUnlockInfoServer)) },
	},
	{
		Pkg:    "metadatapb",
		Desc:   &api_traits.MetadataApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMetadataApiClient(c) },
		Router: func(o ...router.Option) router.Router { return metadatapb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataApiClientFactory(func(n string) (api_traits.MetadataApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MetadataApiClient), err
			})
		},
		Wrap: func(s any) any { return metadatapb.WrapApi(s.(api_traits.MetadataApiServer)) },
	},
	{
		Pkg:    "metadatapb",
		Desc:   &api_traits.MetadataInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMetadataInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return metadatapb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataInfoClientFactory(func(n string) (api_traits.MetadataInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MetadataInfoClient), err
			})
		},
		Wrap: func(s any) any { return metadatapb.WrapInfo(s.(api_traits.MetadataInfoServer)) },
	},
	{
		Pkg:    "meterpb",
		Desc:   &api_traits.MeterApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMeterApiClient(c) },
		Router: func(o ...router.Option) router.Router { return meterpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterApiClientFactory(func(n string) (api_traits.MeterApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MeterApiClient), err
			})
		},
		Wrap: func(s any) any { return meterpb.WrapApi(s.(api_traits.MeterApiServer)) },
	},
	{
		Pkg:    "meterpb",
		Desc:   &api_traits.MeterInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMeterInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return meterpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterInfoClientFactory(func(n string) (api_traits.MeterInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MeterInfoClient), err
			})
		},
		Wrap: func(s any) any { return meterpb.WrapInfo(s.(api_traits.MeterInfoServer)) },
	},
	{
		Pkg:    "microphonepb",
		Desc:   &api_traits.MicrophoneApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMicrophoneApiClient(c) },
		Router: func(o ...router.Option) router.Router { return microphonepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneApiClientFactory(func(n string) (api_traits.MicrophoneApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MicrophoneApiClient), err
			})
		},
		Wrap: func(s any) any { return microphonepb.WrapApi(s.(api_traits.MicrophoneApiServer)) },
	},
	{
		Pkg:    "microphonepb",
		Desc:   &api_traits.MicrophoneInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMicrophoneInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return microphonepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneInfoClientFactory(func(n string) (api_traits.MicrophoneInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MicrophoneInfoClient), err
			})
		},
		Wrap: func(s any) any { return microphonepb.WrapInfo(s.(api_traits.MicrophoneInfoServer)) },
	},
	{
		Pkg:    "modepb",
		Desc:   &api_traits.ModeApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewModeApiClient(c) },
		Router: func(o ...router.Option) router.Router { return modepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeApiClientFactory(func(n string) (api_traits.ModeApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ModeApiClient), err
			})
		},
		Wrap: func(s any) any { return modepb.WrapApi(s.(api_traits.ModeApiServer)) },
	},
	{
		Pkg:    "modepb",
		Desc:   &api_traits.ModeInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewModeInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return modepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeInfoClientFactory(func(n string) (api_traits.ModeInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ModeInfoClient), err
			})
		},
		Wrap: func(s any) any { return modepb.WrapInfo(s.(api_traits.ModeInfoServer)) },
	},
	{
		Pkg:    "motionsensorpb",
		Desc:   &api_traits.MotionSensorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMotionSensorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return motionsensorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorApiClientFactory(func(n string) (api_traits.MotionSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MotionSensorApiClient), err
			})
		},
		Wrap: func(s any) any { return motionsensorpb.WrapApi(s.(api_traits.MotionSensorApiServer)) },
	},
	{
		Pkg:    "motionsensorpb",
		Desc:   &api_traits.MotionSensorSensorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewMotionSensorSensorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return motionsensorpb.NewSensorInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(n string) (api_traits.MotionSensorSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.MotionSensorSensorInfoClient), err
			})
		},
		Wrap: func(s any) any { return motionsensorpb.WrapSensorInfo(s.(api_traits.MotionSensorSensorInfoServer)) },
	},
	{
		Pkg:    "occupancysensorpb",
		Desc:   &api_traits.OccupancySensorApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOccupancySensorApiClient(c) },
		Router: func(o ...router.Option) router.Router { return occupancysensorpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorApiClientFactory(func(n string) (api_traits.OccupancySensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OccupancySensorApiClient), err
			})
		},
		Wrap: func(s any) any { return occupancysensorpb.WrapApi(s.(api_traits.OccupancySensorApiServer)) },
	},
	{
		Pkg:    "occupancysensorpb",
		Desc:   &api_traits.OccupancySensorInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOccupancySensorInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return occupancysensorpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(n string) (api_traits.OccupancySensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OccupancySensorInfoClient), err
			})
		},
		Wrap: func(s any) any { return occupancysensorpb.WrapInfo(s.(api_traits.OccupancySensorInfoServer)) },
	},
	{
		Pkg:    "onoffpb",
		Desc:   &api_traits.OnOffApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOnOffApiClient(c) },
		Router: func(o ...router.Option) router.Router { return onoffpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffApiClientFactory(func(n string) (api_traits.OnOffApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OnOffApiClient), err
			})
		},
		Wrap: func(s any) any { return onoffpb.WrapApi(s.(api_traits.OnOffApiServer)) },
	},
	{
		Pkg:    "onoffpb",
		Desc:   &api_traits.OnOffInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOnOffInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return onoffpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffInfoClientFactory(func(n string) (api_traits.OnOffInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OnOffInfoClient), err
			})
		},
		Wrap: func(s any) any { return onoffpb.WrapInfo(s.(api_traits.OnOffInfoServer)) },
	},
	{
		Pkg:    "openclosepb",
		Desc:   &api_traits.OpenCloseApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOpenCloseApiClient(c) },
		Router: func(o ...router.Option) router.Router { return openclosepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseApiClientFactory(func(n string) (api_traits.OpenCloseApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OpenCloseApiClient), err
			})
		},
		Wrap: func(s any) any { return openclosepb.WrapApi(s.(api_traits.OpenCloseApiServer)) },
	},
	{
		Pkg:    "openclosepb",
		Desc:   &api_traits.OpenCloseInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewOpenCloseInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return openclosepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseInfoClientFactory(func(n string) (api_traits.OpenCloseInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.OpenCloseInfoClient), err
			})
		},
		Wrap: func(s any) any { return openclosepb.WrapInfo(s.(api_traits.OpenCloseInfoServer)) },
	},
	{
		Pkg:    "parentpb",
		Desc:   &api_traits.ParentApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewParentApiClient(c) },
		Router: func(o ...router.Option) router.Router { return parentpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentApiClientFactory(func(n string) (api_traits.ParentApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ParentApiClient), err
			})
		},
		Wrap: func(s any) any { return parentpb.WrapApi(s.(api_traits.ParentApiServer)) },
	},
	{
		Pkg:    "parentpb",
		Desc:   &api_traits.ParentInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewParentInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return parentpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentInfoClientFactory(func(n string) (api_traits.ParentInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.ParentInfoClient), err
			})
		},
		Wrap: func(s any) any { return parentpb.WrapInfo(s.(api_traits.ParentInfoServer)) },
	},
	{
		Pkg:    "presspb",
		Desc:   &api_traits.PressApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewPressApiClient(c) },
		Router: func(o ...router.Option) router.Router { return presspb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return presspb.WithPressApiClientFactory(func(n string) (api_traits.PressApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.PressApiClient), err
			})
		},
		Wrap: func(s any) any { return presspb.WrapApi(s.(api_traits.PressApiServer)) },
	},
	{
		Pkg:    "ptzpb",
		Desc:   &api_traits.PtzApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewPtzApiClient(c) },
		Router: func(o ...router.Option) router.Router { return ptzpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzApiClientFactory(func(n string) (api_traits.PtzApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.PtzApiClient), err
			})
		},
		Wrap: func(s any) any { return ptzpb.WrapApi(s.(api_traits.PtzApiServer)) },
	},
	{
		Pkg:    "ptzpb",
		Desc:   &api_traits.PtzInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewPtzInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return ptzpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzInfoClientFactory(func(n string) (api_traits.PtzInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.PtzInfoClient), err
			})
		},
		Wrap: func(s any) any { return ptzpb.WrapInfo(s.(api_traits.PtzInfoServer)) },
	},
	{
		Pkg:    "publicationpb",
		Desc:   &api_traits.PublicationApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewPublicationApiClient(c) },
		Router: func(o ...router.Option) router.Router { return publicationpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return publicationpb.WithPublicationApiClientFactory(func(n string) (api_traits.PublicationApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.PublicationApiClient), err
			})
		},
		Wrap: func(s any) any { return publicationpb.WrapApi(s.(api_traits.PublicationApiServer)) },
	},
	{
		Pkg:    "speakerpb",
		Desc:   &api_traits.SpeakerApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewSpeakerApiClient(c) },
		Router: func(o ...router.Option) router.Router { return speakerpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerApiClientFactory(func(n string) (api_traits.SpeakerApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.SpeakerApiClient), err
			})
		},
		Wrap: func(s any) any { return speakerpb.WrapApi(s.(api_traits.SpeakerApiServer)) },
	},
	{
		Pkg:    "speakerpb",
		Desc:   &api_traits.SpeakerInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewSpeakerInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return speakerpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerInfoClientFactory(func(n string) (api_traits.SpeakerInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.SpeakerInfoClient), err
			})
		},
		Wrap: func(s any) any { return speakerpb.WrapInfo(s.(api_traits.SpeakerInfoServer)) },
	},
	{
		Pkg:    "temperaturepb",
		Desc:   &api_traits.TemperatureApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewTemperatureApiClient(c) },
		Router: func(o ...router.Option) router.Router { return temperaturepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return temperaturepb.WithTemperatureApiClientFactory(func(n string) (api_traits.TemperatureApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.TemperatureApiClient), err
			})
		},
		Wrap: func(s any) any { return temperaturepb.WrapApi(s.(api_traits.TemperatureApiServer)) },
	},
	{
		Pkg:    "vendingpb",
		Desc:   &api_traits.VendingApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewVendingApiClient(c) },
		Router: func(o ...router.Option) router.Router { return vendingpb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingApiClientFactory(func(n string) (api_traits.VendingApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.VendingApiClient), err
			})
		},
		Wrap: func(s any) any { return vendingpb.WrapApi(s.(api_traits.VendingApiServer)) },
	},
	{
		Pkg:    "vendingpb",
		Desc:   &api_traits.VendingInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewVendingInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return vendingpb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingInfoClientFactory(func(n string) (api_traits.VendingInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.VendingInfoClient), err
			})
		},
		Wrap: func(s any) any { return vendingpb.WrapInfo(s.(api_traits.VendingInfoServer)) },
	},
	{
		Pkg:    "wastepb",
		Desc:   &api_traits.WasteApi_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewWasteApiClient(c) },
		Router: func(o ...router.Option) router.Router { return wastepb.NewApiRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteApiClientFactory(func(n string) (api_traits.WasteApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.WasteApiClient), err
			})
		},
		Wrap: func(s any) any { return wastepb.WrapApi(s.(api_traits.WasteApiServer)) },
	},
	{
		Pkg:    "wastepb",
		Desc:   &api_traits.WasteInfo_ServiceDesc,
		Client: func(c grpc.ClientConnInterface) any { return api_traits.NewWasteInfoClient(c) },
		Router: func(o ...router.Option) router.Router { return wastepb.NewInfoRouter(o...) },
		Factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteInfoClientFactory(func(n string) (api_traits.WasteInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(api_traits.WasteInfoClient), err
			})
		},
		Wrap: func(s any) any { return wastepb.WrapInfo(s.(api_traits.WasteInfoServer)) },
	},
}
