// pkg: .
package vanflow

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// the VanFlow record table: type code, record type, attributes (NAME:CODE, :u for numbers)
var vfTable = []struct {
	code  uint32
	typ   reflect.Type
	attrs string
}{
	{0, reflect.TypeOf(SiteRecord{}), "Location:9 Provider:10 Platform:11 Namespace:12 Name:30 Version:52 Policy:53"},
	{1, reflect.TypeOf(RouterRecord{}), "Parent:2 Namespace:12 Mode:13 ImageName:20 ImageVersion:21 Hostname:22 Name:30 BuildVersion:32"},
	{2, reflect.TypeOf(LinkRecord{}), "Parent:2 Mode:13 Name:30 LinkCost:33:u Direction:34"},
	{3, reflect.TypeOf(ControllerRecord{}), "Parent:2 ImageName:20 ImageVersion:21 Hostname:22 Name:30 BuildVersion:32"},
	{4, reflect.TypeOf(ListenerRecord{}), "Parent:2 DestHost:15 Protocol:16 DestPort:18 Address:19 FlowCountL4:40:u FlowCountL7:41:u FlowRateL4:42:u FlowRateL7:43:u"},
	{5, reflect.TypeOf(ConnectorRecord{}), "Parent:2 DestHost:15 Protocol:16 DestPort:18 Address:19 FlowCountL4:40:u FlowCountL7:41:u FlowRateL4:42:u FlowRateL7:43:u"},
	{6, reflect.TypeOf(FlowRecord{}), "Parent:2 Counterflow:5 SourceHost:14 SourcePort:17 Octets:23:u Latency:24:u Reason:29 Trace:31 OctetRate:35:u OctetsOut:36:u OctetsUnacked:37:u WindowClosures:38:u WindowSize:39:u Method:27 Result:28"},
	{7, reflect.TypeOf(ProcessRecord{}), "Parent:2 Mode:13 SourceHost:14 ImageName:20 ImageVersion:21 Hostname:22 Name:30 Group:46"},
	{8, reflect.TypeOf(ImageRecord{}), ""},
	{9, reflect.TypeOf(IngressRecord{}), ""},
	{10, reflect.TypeOf(EgressRecord{}), ""},
	{11, reflect.TypeOf(CollectorRecord{}), ""},
	{12, reflect.TypeOf(ProcessGroupRecord{}), ""},
	{13, reflect.TypeOf(HostRecord{}), "Provider:10 Name:30"},
	{14, reflect.TypeOf(LogRecord{}), "LogSeverity:48:u LogText:49 SourceFile:50 SourceLine:51:u"},
}

type vfAttr struct {
	name string
	code uint32
	kind byte // s string, u number, t timestamp
}

func vfAttrs(i int) []vfAttr {
	as := []vfAttr{{"StartTime", 3, 't'}, {"EndTime", 4, 't'}}
	for _, f := range strings.Fields(vfTable[i].attrs) {
		p := strings.Split(f, ":")
		n, _ := strconv.Atoi(p[1])
		a := vfAttr{p[0], uint32(n), 's'}
		if len(p) > 2 {
			a.kind = 'u'
		}
		as = append(as, a)
	}
	return as
}

func vfSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func vfBudget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		n = 5
	}
	return time.Duration(n) * time.Second
}

func vfStr(r *rand.Rand) string {
	return []string{"", "0", "id", "a/b", "\x00", "caf\u00e9", strings.Repeat("x", 300), fmt.Sprint(r.Intn(1000))}[r.Intn(8)]
}

func vfNum(r *rand.Rand) uint64 {
	return []uint64{0, 1, 2, 300, 1 << 40, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, r.Uint64()}[r.Intn(9)]
}

func vfTime(r *rand.Rand, neg bool) time.Time {
	ts := []time.Time{{}, time.Unix(0, 0), time.Unix(0, 999), time.Unix(0, 1000), time.Unix(0, 1999), time.UnixMicro(math.MaxInt64), time.UnixMicro(r.Int63()), time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()}
	if neg {
		ts = append(ts, time.Unix(0, -1), time.Unix(0, -1001), time.Unix(-1, 0), time.UnixMicro(math.MinInt64))
	}
	return ts[r.Intn(len(ts))]
}

// vfRecord: a random record of type i, the attribute set it stands for, and whether it can be encoded
func vfRecord(r *rand.Rand, i int, neg bool) (any, map[any]any, bool) {
	v := reflect.New(vfTable[i].typ)
	want := map[any]any{uint32(0): vfTable[i].code}
	ok := true
	id := vfStr(r)
	if !neg && id == "" {
		id = "x"
	}
	v.Elem().FieldByName("ID").SetString(id)
	want[uint32(1)] = id
	if id == "" {
		ok = false
	}
	p := r.Intn(4)
	for _, a := range vfAttrs(i) {
		if r.Intn(4) < p {
			continue
		}
		f := v.Elem().FieldByName(a.name)
		switch a.kind {
		case 's':
			x := vfStr(r)
			f.Set(reflect.ValueOf(&x))
			if x != "" {
				want[a.code] = x
			}
		case 'u':
			x := vfNum(r)
			f.Set(reflect.ValueOf(&x))
			if x != 0 {
				want[a.code] = x
			}
		case 't':
			x := Time{vfTime(r, neg)}
			f.Set(reflect.ValueOf(&x))
			if !x.Time.IsZero() {
				if x.Time.Before(time.Unix(0, 0)) {
					ok = false
				} else {
					want[a.code] = uint64(x.Time.UnixMicro())
				}
			}
		}
	}
	if r.Intn(2) == 0 {
		return v.Interface(), want, ok
	}
	return v.Elem().Interface(), want, ok
}
