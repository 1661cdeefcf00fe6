package main

import (
	"encoding/binary"
	"strings"
)

// Time zones of the simulated machine: files in the format of the zone data
// base, named by the environment variable TZ.

const zoneDir = "/etc/zone/"

type zoneChange struct{ at, off int64 } // from this UTC second on, this offset

// zones are the offsets: the first entry holds from the beginning.
var zones = map[string][]zoneChange{
	"east":   {{0, 13 * 3600}},
	"west":   {{0, -(9*3600 + 1800)}},
	"nepal":  {{0, 5*3600 + 2700}},
	"london": summer(0, 3600),
	"york":   summer(-5*3600, -4*3600),
}

// summer is a zone with daylight saving time from the last Sunday of March to that of October.
func summer(std, dst int64) []zoneChange {
	z := []zoneChange{{0, std}}
	lastSunday := func(y, m int) int64 {
		d := fromCivil(y, m, 31) / day
		return (d - (d+4)%7) * 86400
	}
	for y := 2015; y < 2036; y++ {
		z = append(z, zoneChange{lastSunday(y, 3) + 3600, dst}, zoneChange{lastSunday(y, 10) + 3600, std})
	}
	return z
}

// zoneOffset is what is added to UTC, in ns.
func zoneOffset(name string, ns int64) int64 {
	off := int64(0)
	for i, c := range zones[name] {
		if i == 0 || ns >= c.at*sec {
			off = c.off
		}
	}
	return off * sec
}

func pickZone(r *rng) string {
	return []string{"", "east", "west", "nepal", "london", "york"}[weighted(r, 6, 1, 1, 1, 1, 1)]
}

// setZone gives the machine a time zone.
func (w *World) setZone(name string) {
	w.tz = name
	if name == "" {
		return
	}
	z := zones[name]
	var types []int64
	idx := func(off int64) byte {
		for i, t := range types {
			if t == off {
				return byte(i)
			}
		}
		types = append(types, off)
		return byte(len(types) - 1)
	}
	idx(z[0].off)
	var times, ids []byte
	for _, c := range z[1:] {
		times = binary.BigEndian.AppendUint32(times, uint32(int32(c.at)))
		ids = append(ids, idx(c.off))
	}
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []int{0, 0, 0, len(ids), len(types), 4} {
		b = binary.BigEndian.AppendUint32(b, uint32(n))
	}
	b = append(append(b, times...), ids...)
	for _, t := range types {
		b = append(binary.BigEndian.AppendUint32(b, uint32(int32(t))), 0, 0)
	}
	b = append(b, "SIM\x00"...)
	w.fs.put(zoneDir+name, b)
}

func (w *World) zoneEnv() string {
	if w.tz == "" {
		return "TZ="
	}
	return "TZ=" + zoneDir + w.tz
}

func isZonePath(p string) bool { return strings.HasPrefix(p, zoneDir) }
