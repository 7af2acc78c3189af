package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func writeEvidence(l *layout, prop, tier string, seed uint64, s *search, searchWall, wall time.Duration, nviol, rechecked, differing int, sites []siteInfo) {
	faults, hits, other := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range s.tot.Stats {
		k = strings.TrimPrefix(k, "net.")
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] += v
		case strings.HasPrefix(k, "hit."):
			hits[k[4:]] += v
		default:
			other[k] += v
		}
	}
	samples := []any{}
	for _, o := range s.samples {
		if len(samples) == 3 {
			break
		}
		var p any
		json.Unmarshal(o.Plan, &p)
		samples = append(samples, map[string]any{"run": o.Run, "plan": p, "steps": o.Steps, "decisions": o.NDec, "non_default_decisions": o.NonDef,
			"simulated_s": float64(o.SimNs) / 1e9, "schedule_hash": o.Hash, "event_log_hash": o.LogHash})
	}
	hours := searchWall.Hours()
	info := componentsOf[prop]
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"evaluations":             s.tot.Runs,
			"runs_with_race_detector": s.races,
			"runs_not_judged":         s.other,
			"distinct_nontrivial":     len(s.hashes),
			"rule": "a run is one simulated execution of a generated plan (workload, network profile, fault placement, scheduling policy) under one seed; " +
				"it is non-trivial if at least one scheduling, network or fault decision differed from the default, and two runs are distinct if the hash of all their decisions and of their event log differs",
			"samples":                        samples,
			"seeds_per_hour":                 float64(s.tot.Runs) / hours,
			"simulated_seconds":              float64(s.tot.SimUs) / 1e6,
			"scheduler_steps":                s.tot.Steps,
			"decisions":                      s.tot.NDec,
			"non_default_decisions":          s.tot.NonDef,
			"faults_injected":                faults,
			"conditions_hit":                 hits,
			"traffic":                        other,
			"worlds":                         s.tot.Worlds,
			"distinct_preemption_site_pairs": popcount(s.tot.Pairs),
			"instrumented_statements":        len(sites),
			"statements_reached":             popcount(s.tot.Cov),
			"real_components":                info[0],
			"stub_components":                info[1],
			"known_findings_seen":            s.known,
			"determinism_rechecked_runs":     rechecked,
			"determinism_differing_runs":     differing,
		},
		"assumptions": []string{
			"goroutines interleave at statement boundaries of the instrumented packages and at every blocking operation; below that grain there is only the race detector, in the runs that have it: an access that no lock or channel orders with another is a violation",
			"the network is a reliable byte stream with delays, segmentation, back-pressure and the listed faults, as TCP is",
			"CPU time is free: simulated time passes only when every goroutine waits, or where a stall is injected",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(l.verif, "evidence", prop+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

const (
	realT = "transport (client, server, connection, TLS framing), serialization"
	std   = "Go scheduler, clock, timers, select, net.Dial/net.Listen and randomness (simulated); crypto/tls, context, sync run as they are"
)

var componentsOf = map[string][2]string{}

var budgets = map[string]budget{}

func def(prop string, quick int, real, stub string) {
	componentsOf[prop] = [2]string{real, stub + "; " + std}
	budgets[prop] = budget{quickRuns: quick, thoroughRuns: quick * 60, quickCap: 15 * time.Second, thoroughCap: 10 * time.Minute,
		quickRace: 8 * time.Second, thoroughRace: 2 * time.Minute}
}

func init() {
	peer := "reference peer (own codec and TLS framing) and network"
	def("C01", 30000, realT, peer)
	def("C02", 30000, realT, peer)
	def("C03", 30000, realT, peer)
	def("C04", 30000, realT, peer)
	def("C05", 30000, realT, peer)
	def("C06", 30000, realT, peer)
	def("C07", 30000, realT+"; piper, federation site node, naming client", peer)
	def("C08", 30000, realT, peer)
	def("C09", 30000, realT, peer)
	def("C10", 30000, realT, peer)
	def("C11", 30000, "transport (piper, client, server, connection, TLS framing), serialization", peer)
	def("C17", 30000, "lease (agent, sessions, frames, messages), crypto/tls where configured", "lease agents at the other end (reference implementation of the lease wire format), network, clocks, scheduler, crypto/rand")
	def("C18", 30000, "lease (agent, sessions, frames, messages), crypto/tls where configured", "lease agents at the other end (reference implementation of the lease wire format), network, clocks, scheduler, crypto/rand")
	def("C19", 30000, "lease (agent, sessions, frames, messages), crypto/tls where configured", "correct and hostile lease agents at the other end (reference implementation of the lease wire format), network, clocks, scheduler, crypto/rand")
	def("C12", 30000, "federation (site node, partner view, bootstrap, discover, sender, wire types), transport, serialization, lease (agent), crypto/tls where configured", "other federation nodes (reference implementation of the wire formats), network and dialling, clocks, scheduler, crypto/rand")
	def("C13", 30000, "federation (site node, partner view, bootstrap, discover, sender, wire types), transport, serialization, lease (agent), crypto/tls where configured", "other federation nodes (reference implementation of the wire formats), network and dialling, clocks, scheduler, crypto/rand")
	def("C14", 30000, "federation (site node, partner view, bootstrap, discover, sender, wire types), transport, serialization, lease (agent), crypto/tls where configured", "other federation nodes (reference implementation of the wire formats), network and dialling, clocks, scheduler, crypto/rand")
	def("C15", 30000, "federation (site node, partner view, bootstrap, discover, sender, wire types), transport, serialization, lease (agent), crypto/tls where configured", "other federation nodes (reference implementation of the wire formats), network and dialling, clocks, scheduler, crypto/rand")
	def("C20", 30000, "naming (client), transport (client connection, request table, TLS framing), serialization, common", "the gateway at the other end (reference implementation of the wire formats), network, clocks, scheduler, crypto/rand")
	def("C21", 30000, "naming (client), transport (client connection, request table, TLS framing), serialization, common", "the gateway at the other end (reference implementation of the wire formats), network, clocks, scheduler, crypto/rand")
	def("C16", 30000, "federation (site node, partner view, bootstrap, discover, sender, wire types), transport, serialization, lease (agent), crypto/tls where configured", "other federation nodes (reference implementation of the wire formats), network and dialling, clocks, scheduler, crypto/rand")
	def("C26", 1000000, "transport, serialization, lease, federation, naming, common, compiled for the race detector", "the peers of every other check")
	budgets["C26"] = budget{quickRuns: 1 << 22, thoroughRuns: 1 << 22, quickRace: 40 * time.Second, thoroughRace: 12 * time.Minute}
}
