package wire

// WebEvent is one thing that happens around the simulated web server.
type WebEvent struct {
	Op     string `json:"op"` // connect send eof reset credit sleep put del accepterr probe
	Client int    `json:"client,omitempty"`
	Data   []byte `json:"data,omitempty"`
	N      int64  `json:"n,omitempty"`
	Path   string `json:"path,omitempty"`
}

// WebScript is the whole environment of one run.
type WebScript struct {
	Events  []WebEvent `json:"events"`
	Seed    uint64     `json:"seed"`
	Latency int64      `json:"latency"` // upper bound of a disk operation, ns
	Settle  int64      `json:"settle"`  // ns to wait at the end
}

// WebMark says how much a client had received after an event.
type WebMark struct {
	Event int   `json:"e"`
	Len   int   `json:"n"`
	Time  int64 `json:"t"`
}

// WebClient is what one client saw.
type WebClient struct {
	Recv   []byte    `json:"recv"`
	Marks  []WebMark `json:"marks"`
	Closed bool      `json:"closed"` // by the server
	Sent   int       `json:"sent"`
	Taken  bool      `json:"taken"` // accepted by the server
}

// WebResult is what was observed.
type WebResult struct {
	Clients []WebClient `json:"clients"`
	Listen  string      `json:"listen"`
	Exited  bool        `json:"exited"`
	Exit    int         `json:"exit"`
	Elapsed int64       `json:"elapsed"`
}
