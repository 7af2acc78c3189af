package main

import "encoding/json"

type stepT struct {
	Op   string  `json:"op"`
	D    int64   `json:"d,omitempty"`
	Who  int     `json:"w,omitempty"`
	N    []int64 `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Data []byte  `json:"data,omitempty"`
}

type schedT struct {
	Seed    uint64    `json:"seed"`
	Mode    int       `json:"mode"`
	YieldP  [8]uint32 `json:"yieldp"`
	PickP   uint32    `json:"pickp"`
	StallP  uint32    `json:"stallp"`
	Stalls  int       `json:"stalls"`
	Changes []uint64  `json:"changes,omitempty"`
}

type faultT struct {
	Conn int    `json:"conn"`
	Dir  int    `json:"dir"`
	Kind string `json:"kind"`
	Off  int64  `json:"off"`
	Arg  int64  `json:"arg,omitempty"`
}

type planT struct {
	Prop   string           `json:"prop"`
	World  string           `json:"world"`
	Noise  uint64           `json:"noise"`
	P      map[string]int64 `json:"p"`
	Steps  []stepT          `json:"steps"`
	Faults []faultT         `json:"faults,omitempty"`
	Sched  schedT           `json:"sched"`
}

func (p *planT) clone() *planT {
	b, _ := json.Marshal(p)
	var q planT
	json.Unmarshal(b, &q)
	return &q
}
