package gen

import (
	"fmt"

	"vmon/wl"
)

func hist(inject, marshal, bad bool, reset, slots, ops, max, kind int) HistOpt {
	return HistOpt{Inject: inject, Marshal: marshal, BadState: bad, Reset: reset, Slots: slots, Ops: ops, MaxLen: max, OnlyKind: kind}
}

// sentinel: a few real attacks in every group, so that a run in which
// detection is dead altogether cannot pass.
func (b *B) sentinel() { b.Attack(8) }

// Plan fills b with the cases of one group of one property. x scales counts.
func Plan(b *B, prop, group, tier string) error {
	x := 2
	switch prop {
	case "C01", "C02", "C03", "C04", "C09", "C13":
		x = 4
	}
	if tier == "thorough" {
		x = 20
	}
	if group != "cold" {
		b.sentinel()
	}
	switch prop + "/" + group {
	case "C01/main":
		b.Sizes(14, false)
		b.Consts()
		b.Lengths(520, 2)
		b.Clean(700*x, 12000)
		b.PassBlocks(10 * x)
		b.AttackFlips(8)
		b.Bulk(false, 4096, 65536, 1<<20+17)
		b.ManyWrites(false, 4000)
		b.Histories("history", 120*x, hist(false, true, false, 4, 3, 50, 3000, -1))
		b.States(100*x, false)
		b.Reuse(60*x, false)
		b.Structured(200*x, false)
	case "C01/bulk":
		b.Sizes(20, false)
		b.Bulk(false, 3<<20+1, 5<<20+63, 6<<20-100)
		b.Clean(40*x, 900000)
	case "C02/main":
		b.Large(12, 19, false)
		b.Attack(400 * x)
		b.AttackStates(300 * x)
		b.AttackFlips(8)
		b.SaveRestore(150*x, false)
		b.SaveEvery(0, false, 4)
		b.Lifecycle(100*x, false)
		b.Structured(60*x, false)
	case "C03/main":
		b.Inject0(16 * x)
		b.InjectLocal(48 * x)
		b.InjectStep(160)
		b.InjectPad(4 * x)
		b.InjectPos(60*x, 30)
		b.Twice(60 * x)
		b.PassBlocks(5 * x)
		b.Attack(60 * x)
		b.AttackFlips(32)
		b.Bulk(true, 30000)
		b.Structured(300*x, true)
		b.Structured(80*x, false)
		b.OneOfMany(30 * x)
	case "C04/main":
		b.Masks(12*x, 12000*x)
		b.Inject0(6 * x)
	case "C05/main":
		b.Large(8, 18, false)
		b.Large(4, 17, true)
		b.Sizes(11, true)
		b.Consts()
		b.Lengths(200, 2)
		b.Clean(150*x, 6000)
		b.PassBlocks(3 * x)
		b.Bulk(false, 100000)
		b.Bulk(true, 5000, 200000)
		b.Histories("history", 80*x, hist(false, true, true, 4, 3, 50, 3000, -1))
		b.Histories("historyinj", 120*x, hist(true, true, true, 4, 3, 50, 3000, -1))
		b.Attack(60 * x)
		b.AttackStates(40 * x)
		b.Masks(2*x, 1500*x)
		b.Inject0(4 * x)
		b.InjectLocal(16 * x)
		b.InjectStep(80)
		b.InjectPad(2 * x)
		b.PurePadStates(2 * x)
		b.Twice(30 * x)
		b.States(80*x, true)
		b.SaveRestore(60*x, true)
		b.BigLens(44*x, true)
		b.Lifecycle(50*x, true)
		b.Structured(80*x, true)
		b.OneOfMany(8 * x)
	case "C06/main":
		b.NearInit(60*x, false)
		b.Large(16, 19, false)
		b.Large(8, 18, true)
		b.Sizes(16, true)
		b.Lengths(200, 2)
		b.Reuse(120*x, false)
		b.Reuse(120*x, true)
		b.ReuseLens(260)
		b.WritePairs(210)
		b.Prefixes()
		b.Histories("history", 200*x, hist(false, false, false, 2, 3, 60, 4000, -1))
		b.Histories("historyinj", 400*x, hist(true, false, false, 2, 3, 60, 4000, -1))
		b.Histories("historylong", 6*x, hist(true, false, false, 1, 2, 1500, 400, -1))
		b.ManyWrites(true, 6000)
		b.Bulk(true, 5000, 70000)
		b.InjectPad(4 * x)
		b.PurePadStates(2 * x)
		b.Twice(50 * x)
		b.Attack(60 * x)
		b.Structured(80*x, true)
	case "C07/main":
		b.NearInit(150*x, true)
		b.Large(12, 19, false)
		b.Large(6, 17, true)
		b.Reuse(60*x, true)
		b.States(150*x, true)
		b.Lifecycle(500*x, true)
		b.Lifecycle(250*x, false)
		b.Histories("historyinj", 300*x, hist(true, true, true, 9, 2, 60, 1500, -1))
		b.InjectPad(3 * x)
		b.Twice(60 * x)
		b.Attack(100 * x)
		b.AttackStates(60 * x)
		b.ManyFlagged(512)
		b.Structured(80*x, true)
	case "C07/bulk":
		b.ManyFlagged(1 << 16)
	case "C08/main":
		b.NearInit(150*x, false)
		b.Large(12, 19, false)
		b.Large(6, 17, true)
		b.SaveRestore(300*x, false)
		b.SaveRestore(500*x, true)
		b.SaveEvery(260, true, 3*x)
		b.SaveEvery(0, false, 4)
		b.States(250*x, false)
		b.States(250*x, true)
		b.Histories("historyinj", 200*x, hist(true, true, true, 4, 4, 60, 1500, wl.KGo))
		b.BigLens(66*x, true)
		b.AttackStates(100 * x)
		b.Lifecycle(60*x, true)
		b.Structured(80*x, true)
	case "C09/main":
		b.NearInit(100*x, false)
		b.Large(4, 17, false)
		b.BadStates(true, 600*x)
		b.Foreign(400 * x)
		b.Histories("history", 100*x, hist(false, true, true, 4, 3, 60, 800, wl.KGo))
		b.Histories("historyinj", 100*x, hist(true, true, true, 4, 3, 60, 800, wl.KGo))
		b.States(60*x, false)
	case "C10/par":
		b.ParallelLarge(6*x, 8, 2, 18)
		b.Parallel(25*x, 8, 40, 3, true)
		b.Parallel(10*x, 8, 40, 3, false)
		b.Hammer(30*x, 16, 80, 4)
	case "C10/cold":
		b.Cold(24*x, 8, 4)
	case "C10/race":
		b.ParallelLarge(3*x, 8, 2, 17)
		b.Parallel(14*x, 8, 30, 2, true)
		b.Parallel(6*x, 6, 30, 2, false)
		b.Hammer(10*x, 8, 60, 3)
	case "C11/main":
		b.Large(12, 19, false)
		b.Large(6, 17, true)
		b.Lengths(300, 2)
		b.Clean(250*x, 8000)
		b.PassBlocks(3 * x)
		b.Histories("history", 120*x, hist(false, true, true, 4, 3, 60, 3000, -1))
		b.Histories("historyinj", 200*x, hist(true, true, true, 4, 3, 60, 3000, -1))
		b.BadStates(false, 200*x)
		b.Foreign(150 * x)
		b.States(100*x, true)
		b.Attack(60 * x)
		b.Masks(1, 600)
		b.InjectPad(1)
		b.InjectLocal(6 * x)
		b.Structured(60*x, true)
	case "C12/main":
		b.NearInit(40*x, false)
		b.Large(8, 19, false)
		b.BigLens(440*x, false)
		b.BigLens(440*x, true)
		b.States(150*x, false)
		b.AttackStates(150 * x)
		b.Foreign(100 * x)
		b.SaveRestore(60*x, true)
	case "C12/zeroGo", "C15/zeroGo":
		b.BigZero(wl.KGo, 1<<32+uint64(b.n(1<<20))+1, true, prop == "C15")
	case "C12/zeroCgo", "C15/zeroCgo":
		b.BigZero(wl.KCgo, 1<<32+uint64(b.n(1<<20))+1, true, prop == "C15")
	case "C12/zero2":
		b.BigZero(wl.KGo, 1<<31+uint64(b.n(1<<12)), true, false)
		b.BigZero(wl.KCgo, 1<<31-64, true, false)
	case "C02/ladder", "C15/ladder":
		b.Ladder([]int{wl.KGo, wl.KCgo}, 20, 25, 2)
	case "C06/ladder", "C12/ladder":
		b.Ladder([]int{wl.KGo, wl.KCgo}, 20, 27, 2)
	case "C14/ladder":
		b.Ladder([]int{wl.KCgo}, 20, 28, 2)
	case "C06/bulk":
		b.Large(40*x, 22, false)
	case "C06/count", "C07/count", "C08/count":
		b.Counters(wl.KGo, 66000)
		if prop != "C08" {
			b.Counters(wl.KCgo, 66000)
		}
	case "C12/crossGo":
		b.Crossing(wl.KGo, 1<<29, 1<<31, 1<<32)
	case "C12/crossCgo":
		b.Crossing(wl.KCgo, 1<<29, 1<<31, 1<<32)
	case "C13/main":
		b.Large(8, 18, false)
		b.Large(4, 16, true)
		b.Consts()
		b.Lengths(140, 2)
		b.Clean(60*x, 3000)
		b.PassBlocks(1)
		b.Bulk(true, 20000)
		b.Histories("historyinj", 40*x, hist(true, true, true, 4, 3, 50, 2000, -1))
		b.Attack(24 * x)
		b.Inject0(2 * x)
		b.InjectLocal(6 * x)
		b.InjectStep(80)
		b.Masks(1, 300)
		b.States(30*x, true)
		b.Structured(40*x, true)
	case "C14/main":
		b.Large(12, 20, false)
		b.Large(6, 18, true)
		b.Sizes(15, true)
		b.Consts()
		b.Lengths(300, 2)
		b.Clean(150*x, 8000)
		b.Reuse(60*x, true)
		b.Histories("history", 100*x, hist(false, false, false, 4, 3, 50, 3000, wl.KCgo))
		b.Histories("historyinj", 250*x, hist(true, false, false, 4, 3, 50, 3000, wl.KCgo))
		b.Attack(150 * x)
		b.AttackFlips(16)
		b.Masks(4*x, 4000*x)
		b.Inject0(6 * x)
		b.InjectLocal(20 * x)
		b.InjectStep(80)
		b.InjectPad(2 * x)
		b.PurePadStates(2 * x)
		b.InjectPos(40*x, 30)
		b.Twice(40 * x)
		b.Lifecycle(80*x, true)
		b.Bulk(true, 5000, 200000)
		b.ManyWrites(true, 3000)
		b.Structured(80*x, true)
		b.OneOfMany(15 * x)
	case "C15/main":
		b.Large(8, 19, false)
		b.Large(6, 18, true)
		b.Sizes(15, true)
		b.InjectPos(250*x, 60)
		b.WritePairs(140)
		b.PosEvery(40)
		b.PosEvery(17)
		b.Twice(150 * x)
		b.InjectPad(5 * x)
		b.PurePadStates(2 * x)
		b.Bulk(true, 5000, 65536, 300000)
		b.BigBulkInject(4*x, 20000)
		b.ManyWrites(true, 4000)
		b.Histories("historyinj", 200*x, hist(true, true, false, 3, 3, 60, 6000, -1))
		b.BigLens(110*x, true)
		b.AttackStates(100 * x)
		b.Structured(300*x, true)
		b.OneOfMany(20 * x)
	case "C15/bulk":
		b.Sizes(18, true)
		b.Bulk(true, 1<<20+64, 6<<20-100)
		b.BigBulkInject(6*x, 90000)
		b.ManyFlagged(1 << 16)
		b.PurePadWrites(5)
	default:
		return fmt.Errorf("no plan for %s/%s", prop, group)
	}
	return nil
}
