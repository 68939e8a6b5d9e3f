// Property U01: every upgrade takes effect exactly from its height, on every schedule.
package main

import (
	"fmt"
	"time"

	"github.com/vitelabs/go-vite/v2/common/upgrade"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type point struct {
	name    string
	height  uint64
	version uint32
}

var flags = []func(uint64) bool{upgrade.IsSeedUpgrade, upgrade.IsDexUpgrade, upgrade.IsDexFeeUpgrade, upgrade.IsStemUpgrade, upgrade.IsLeafUpgrade, upgrade.IsEarthUpgrade, upgrade.IsDexMiningUpgrade, upgrade.IsDexRobotUpgrade, upgrade.IsDexStableMarketUpgrade, upgrade.IsVersion10Upgrade, upgrade.IsVersion11Upgrade, upgrade.IsVersion12Upgrade, upgrade.IsVersion13Upgrade, upgrade.IsVersionXUpgrade}

func show(p *upgrade.UpgradePoint) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%s@%d v%d", p.Name, p.Height, p.Version)
}

func showAll(l []*upgrade.UpgradePoint) (s string) {
	for _, p := range l {
		s += show(p) + ","
	}
	return
}

// check compares every question about the installed schedule at one height with the schedule.
func check(c *C, l []point, h uint64) {
	c.AddStates(1)
	cur, latest, act, all := "none", "none", "", ""
	is := false
	for _, p := range l {
		s := fmt.Sprintf("%s@%d v%d", p.name, p.height, p.version)
		all += s + ","
		if p.height <= h {
			cur = s
			act += s + ","
		}
		if p.height < 1000000000 {
			latest = s
		}
		is = is || p.height == h
	}
	for i, f := range flags {
		want := false
		for _, p := range l {
			want = want || int(p.version) == i+1 && h >= p.height
		}
		if f(h) != want {
			c.Fail("U01/active", "version %d at height %d under schedule %s is %v", i+1, h, all, !want)
		}
	}
	p := upgrade.NewHeightPoint(h)
	if p.IsDexFeeUpgrade() != flags[2](h) || p.IsVersion12Upgrade() != flags[11](h) {
		c.Fail("U01/height-point", "height point at %d under schedule %s", h, all)
	}
	if got := show(upgrade.GetCurPoint(h)); got != cur {
		c.Fail("U01/current", "current point at %d under schedule %s is %s", h, all, got)
	}
	if got := show(upgrade.GetLatestPoint()); got != latest {
		c.Fail("U01/latest", "latest point under schedule %s is %s", all, got)
	}
	if got := showAll(upgrade.GetActivePoints(h)); got != act {
		c.Fail("U01/active-points", "points active at %d under schedule %s are %s", h, all, got)
	}
	if got := showAll(upgrade.GetAllPoints()); got != all {
		c.Fail("U01/all", "points of schedule %s are %s", all, got)
	}
	if upgrade.IsUpgradePoint(h) != is {
		c.Fail("U01/is-point", "height %d under schedule %s is an upgrade point: %v", h, all, !is)
	}
	for _, p := range l {
		if p.version == 5 {
			x := upgrade.GetLeafUpgradePoint()
			if got := show(&x); got != fmt.Sprintf("%s@%d v5", p.name, p.height) {
				c.Fail("U01/leaf", "leaf point under schedule %s is %s", all, got)
			}
		}
	}
}

func refused(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

func main() {
	Main(Suite{Property: "U01", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		top := 4
		if tier != "quick" {
			top = 6
		}
		return []Scenario{
			{Name: "schedules", Bound: fmt.Sprintf("every non-decreasing schedule of 0 to 14 versions over the first %d heights and never, given in any of three orders or added one by one, asked at every height", top), Body: func(c *C) {
				n := c.Choose(15)
				how := c.Choose(4)
				first := c.Choose(top + 1)
				heights := make([]uint64, n)
				var rec func(i, lo int)
				rec = func(i, lo int) {
					if i < n {
						for k := lo; k <= top; k++ {
							heights[i] = uint64(k + 1)
							if k == top {
								heights[i] = 1000000000
							}
							rec(i+1, k)
						}
						return
					}
					var l []point
					m := map[string]*upgrade.UpgradePoint{}
					for i, h := range heights {
						p := point{fmt.Sprint(i + 1), h, uint32(i + 1)}
						if how == 1 {
							p.name = fmt.Sprintf("fork%d", i)
						}
						if how == 3 {
							p.name = ""
						}
						l = append(l, p)
						m[fmt.Sprintf("fork%d", i)] = &upgrade.UpgradePoint{Height: h, Version: uint32(i + 1)}
						if how == 2 {
							m[fmt.Sprintf("fork%d", i)].Name = p.name
						}
					}
					upgrade.CleanupUpgradeBox()
					switch how {
					case 0, 3:
						b := upgrade.NewEmptyUpgradeBox()
						upgrade.InitUpgradeBox(b)
						for _, p := range l {
							upgrade.AddUpgradePoint(p.version, p.height)
						}
						if how == 0 { // installing a schedule names its points
							all := upgrade.GetAllPoints()
							upgrade.CleanupUpgradeBox()
							upgrade.InitUpgradeBox(box{upgrade.NewEmptyUpgradeBox(), all})
						}
					default:
						upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(m))
					}
					for h := uint64(0); h <= uint64(top+2); h++ {
						check(c, l, h)
					}
					check(c, l, 999999999)
					check(c, l, 1000000000)
				}
				if n == 0 {
					if first == 0 {
						rec(0, 0)
					}
					return
				}
				heights[0] = uint64(first + 1)
				if first == top {
					heights[0] = 1000000000
				}
				rec(1, first)
			}},
			{Name: "broken", Bound: "every schedule of up to 4 points over versions 1 to 4 and heights 1 to 3 that repeats or skips a version or decreases is refused", Body: func(c *C) {
				n := c.Choose(5)
				heights := make([]uint64, n)
				versions := make([]uint32, n)
				for i := range heights {
					heights[i] = uint64(c.Choose(3) + 1)
					versions[i] = uint32(c.Choose(4) + 1)
				}
				by := map[uint32]uint64{}
				dup := false
				m := map[string]*upgrade.UpgradePoint{}
				for i, v := range versions {
					_, d := by[v]
					dup = dup || d
					by[v] = heights[i]
					m[fmt.Sprint("p", i)] = &upgrade.UpgradePoint{Height: heights[i], Version: v}
				}
				if dup {
					c.Prune()
				}
				ok := true
				for v := uint32(1); v <= uint32(n); v++ {
					h, has := by[v]
					ok = ok && has && h >= by[v-1]
				}
				if refused(func() { upgrade.NewCustomUpgradeBox(m) }) == ok {
					c.Fail("U01/broken", "schedule %v at %v: refused %v", versions, heights, !ok)
				}
				c.AddStates(1)
			}},
			{Name: "mainnet", Bound: "the published main network schedule at every upgrade height, its neighbours, zero and the largest height; a second installation is refused; without one every question is refused", Body: func(c *C) {
				l := []point{{"SeedFork", 3488471, 1}, {"DexFork", 5442723, 2}, {"DexFeeFork", 8013367, 3}, {"StemFork", 8403110, 4}, {"LeafFork", 9413600, 5}, {"EarthFork", 16634530, 6}, {"DexMiningFork", 17142720, 7}, {"DexRobotFork", 31305900, 8}, {"DexStableMarketFork", 39694000, 9}, {"Version10", 77106666, 10}, {"Version11", 101320000, 11}, {"Version12", 116480000, 12}, {"Version13", 166869900, 13}, {"VersionX", 1000000000, 14}}
				upgrade.CleanupUpgradeBox()
				for _, f := range flags {
					if !refused(func() { f(5) }) {
						c.Fail("U01/uninstalled", "an upgrade question is answered without a schedule")
					}
				}
				for _, f := range []func(){func() { upgrade.GetCurPoint(1) }, func() { upgrade.GetLatestPoint() }, func() { upgrade.GetActivePoints(1) }, func() { upgrade.IsUpgradePoint(1) }} {
					if !refused(f) {
						c.Fail("U01/uninstalled", "an upgrade question is answered without a schedule")
					}
				}
				upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
				if !refused(func() { upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox()) }) {
					c.Fail("U01/twice", "a second schedule replaces the first")
				}
				for _, p := range l {
					for d := uint64(0); d < 3; d++ {
						check(c, l, p.height+d-1)
					}
				}
				check(c, l, 0)
				check(c, l, 1<<64-1)
				upgrade.CleanupUpgradeBox()
				upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
				var all []point
				for v := uint32(1); v <= 14; v++ {
					all = append(all, point{fmt.Sprint(v), 1, v})
				}
				for h := uint64(0); h < 5; h++ {
					check(c, all, h)
				}
			}},
		}
	}})
}

// box presents a list of points as a schedule.
type box struct {
	upgrade.UpgradeBox
	l []*upgrade.UpgradePoint
}

func (b box) UpgradePoints() []*upgrade.UpgradePoint { return b.l }
