package main

func init() {
	register(&Check{ID: "C15", Mods: []string{"shuttermint"},
		Rule: "At every point where the decider schedules an action the path conditions must imply that both observed chains are in sync and that the keyper's own address is in a keyper set observed on the shuttermint chain. A check-in is scheduled only while the keyper is not known to be checked in and none was sent before, carries the public halves of the keyper's own keys, and the fact is remembered; a config vote is for the successor of the newest config on shuttermint, was not sent before, carries the main chain's data for that index, and the index is remembered.",
		Min:  map[string]int{"synced": 8, "member": 8, "check-in": 1, "check-in once": 1, "config vote": 1, "config vote once": 1},
		Run:  checkC15})
}

func checkC15(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	c.eachAct(as, "", "synced", func(r *act) bool {
		f := r.a.Facts
		st := Fld(dShut, "NodeStatus")
		return (f.IsNil(st) || f.False(Fld(Fld(st, "SyncInfo"), "CatchingUp"))) && f.IsNil(Fld(dMain, "NodeSyncProgress"))
	}, "an action is scheduled although the keyper's shuttermint or main chain node may still be catching up")
	c.eachAct(as, "", "member", func(r *act) bool {
		return memberIn(r.a.Facts, Idx(Fld(dShut, "BatchConfigs"), Any), self)
	}, "an action is scheduled although the keyper may not be in any keyper set on shuttermint")
	c.eachAct(as, "CheckIn", "check-in", func(r *act) bool {
		f := r.a.Facts.Past()
		return f.False(Fld(dState, "CheckInMessageSent")) && f.NotHas(Fld(dShut, "KeyperEncryptionKeys"), self) &&
			r.is("ValidatorPublicKey", Sub(Fld(dConf, "ValidatorKey"))) && r.is("EncryptionPublicKey", Sub(Fld(Fld(dConf, "EncryptionKey"), "PublicKey")))
	}, "a check-in is sent although the keyper is checked in or one has been sent, or without the keyper's own public keys")
	last := Fld(Idx(Fld(dShut, "BatchConfigs"), Bin("-", Len(Fld(dShut, "BatchConfigs")), Num(1))), "ConfigIndex")
	next := Strip(Bin("+", last, Num(1)))
	src := Idx(mcCfgs, next)
	c.eachAct(as, "BatchConfig", "config vote", func(r *act) bool {
		f := r.a.Facts.Past()
		return f.Lt(Fld(dState, "LastSentBatchConfigIndex"), next) && f.Lt(next, Len(mcCfgs)) &&
			r.is("ConfigIndex", next) && r.is("StartBatchIndex", Fld(src, "StartBatchIndex")) && r.is("Threshold", Fld(src, "Threshold")) &&
			f.All(Fld(src, "Keypers"), func(*Facts) bool { return true }) &&
			r.is("ConfigContractAddress", Sub(Fld(dConf, "ConfigContractAddress"))) && r.is("Started", K("false"))
	}, "the config vote is not for the successor of the newest config on shuttermint, was sent before, or does not carry the main chain's config with that index")
	for _, s := range as {
		for _, r := range s.acts {
			switch r.kind() {
			case "CheckIn":
				ok, why := followedBy(e, s.s, Call("store:Actions"), func(al *Alt) bool {
					return al.Facts.Did(Call("store:CheckInMessageSent", Any, constTrue))
				}, nil)
				c.must(ok, "check-in once", "CheckInMessageSent after "+s.s.where(e.P), "sending the check-in is not remembered: "+why)
			case "BatchConfig":
				ok, why := followedBy(e, s.s, Call("store:Actions"), func(al *Alt) bool {
					return al.Facts.Did(Call("store:LastSentBatchConfigIndex"))
				}, nil)
				c.must(ok, "config vote once", "LastSentBatchConfigIndex after "+s.s.where(e.P), "sending the config vote is not remembered: "+why)
			}
		}
	}
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "store" && Fld(dState, "LastSentBatchConfigIndex")(s.Alts[0].Target) {
			c.each(s, "config vote once", func(a *CAlt) bool { return a.Facts.matchUpTo(a.Args[0], next) }, "the remembered index is not that of the config that was voted for")
		}
		if s.Kind == "store" && Fld(dState, "CheckInMessageSent")(s.Alts[0].Target) {
			c.each(s, "check-in once", func(a *CAlt) bool { return constTrue(a.Args[0]) }, "the sent check-in is forgotten")
		}
	})
}
