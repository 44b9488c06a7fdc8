// Stands in for the file of the same name of the standard library in the wasm
// build of the simulator: wasip1 knows no local time zone, so that a dependence
// on it would stay invisible. TZ=SIM<seconds> sets a fixed offset, TZ=SIMJUMP one
// that jumps every 31 hours.

package time

import "syscall"

var platformZoneSources = []string{}

func initLocal() {
	localLoc.name = "Local"
	tz, ok := syscall.Getenv("TZ")
	if !ok || len(tz) < 4 || tz[:3] != "SIM" {
		return
	}
	if tz == "SIMJUMP" {
		for i, o := range []int{3600, -5 * 3600, 7200, 0, 13 * 3600, 1800} {
			localLoc.zone = append(localLoc.zone, zone{"SIM", o, i%2 == 1})
		}
		localLoc.tx = []zoneTrans{{alpha, 0, false, false}}
		for t, i := int64(-86400*400), 0; t < 86400*366*101; t, i = t+31*3600, i+1 {
			localLoc.tx = append(localLoc.tx, zoneTrans{t, uint8(i % 6), false, false})
		}
		return
	}
	n, neg := 0, false
	for i := 3; i < len(tz); i++ {
		switch c := tz[i]; {
		case c == '-':
			neg = true
		case c >= '0' && c <= '9':
			n = n*10 + int(c-'0')
		}
	}
	if neg {
		n = -n
	}
	localLoc.zone = []zone{{"SIM", n, false}}
	localLoc.tx = []zoneTrans{{alpha, 0, false, false}}
	localLoc.cacheStart, localLoc.cacheEnd, localLoc.cacheZone = alpha, omega, &localLoc.zone[0]
}
