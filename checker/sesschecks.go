package main

import (
	"fmt"
	"strings"
)

// The checks decided by the session model.
func init() {
	type need struct {
		what string
		min  int
	}
	reg := func(id, expl string, needs ...need) {
		checks[id] = func(p *Prog, r *Result) {
			m := sessionModel(p)
			r.explanation = sessExpl + expl
			r.assume = sessAssume
			roots := []string{}
			for _, f := range m.roots {
				roots = append(roots, fname(f))
			}
			r.coverage["roots"] = roots
			r.coverage["interpreted_steps"] = m.steps
			r.coverage["request_sends"] = len(m.sends)
			r.coverage["exit_states"] = len(m.exits)
			r.coverage["waits"] = m.waits
			r.coverage["event_calls"] = m.events
			r.coverage["log_and_dial_calls"] = m.logs
			und := []string{}
			for f, why := range m.giveup {
				und = append(und, f+": "+why)
			}
			r.coverage["undecided"] = und
			for _, s := range m.samples {
				r.sample("%s", s)
			}
			r.obligations += m.counts[id]
			for _, f := range m.found[id] {
				r.report(f.rule, f.where, p.pos(f.pos), "%s", f.msg)
			}
			if id == "R15" {
				mm := mediaOf(p)
				mm.report(id, r)
				for u := range mm.undec {
					und = append(und, u)
				}
				r.coverage["undecided"] = und
			}
			for _, u := range und {
				fmt.Println("UNDECIDED property=" + id + " " + u)
			}
			if len(und) > 0 {
				return
			}
			for _, n := range needs {
				c := m.counts[n.what]
				switch n.what {
				case "roots":
					c = len(m.roots)
				case "exits":
					c = len(m.exits)
				case "waits":
					c = m.waits
				case "events":
					c = m.events
				case "setups":
					c = m.setups
				case "first":
					c = m.first
				case "logs":
					c = m.logs
				}
				r.require(strings.ToLower(n.what), c, n.min)
			}
		}
	}
	reg("R01", "Rule: every byte string given to the connection for sending parses as one request.", need{"sends", 8}, need{"roots", 8})
	reg("R02", "Rule: the CSeq value of every request is the value of one counter of the session, consecutive requests of a path carry consecutive values, and at every return the counter is one more than the last CSeq sent, or unchanged if nothing was sent.", need{"R02", 12}, need{"cseqSends", 8})
	reg("R03", "Rule: no send is reached while the outstanding mark is set; sending sets it, every end of a wait clears it, and a call made while it is set returns an error and changes no field.", need{"R03", 12}, need{"waits", 2})
	reg("R04", "Rule: no request but DESCRIBE is sent without the Session header unless the kept identifier is known to be empty, DESCRIBE never has one, the header's value is the kept identifier, and the kept identifier is the one of the last SETUP response that had one.", need{"R04", 8}, need{"sidSends", 4})
	reg("R05", "Rule: once a challenge of a known kind is kept no request is sent without an Authorization header, and its value is term for term the Digest or Basic response.", need{"R05", 8})
	reg("R06", "Rule: no value that can depend on the password reaches a request outside the digest or Basic credentials, a log call, a dial call, an event or a returned error.", need{"R06", 8}, need{"logs", 3})
	reg("R07", "Rule: credentials are only kept from a challenge in the response just received, whose status is 401, Basic only where the Digest challenge is known to be absent; user name and password come from the URL of the call.", need{"R07", 2})
	reg("R08", "Rule: over a new connection SETUP and PLAY are sent only after a 200 to the step before, PLAY only after as many SETUPs as the description has streams, and success is returned only after a 200 to PLAY.", need{"R08", 4}, need{"first", 3})
	reg("R09", "Rule: at every return of a playback call the events reported on the path are exactly one outcome, agreeing with the returned error, or one disconnected event if no connection was made.", need{"R09", 6}, need{"events", 3})
	reg("R10", "Rule: at the first request over a new connection no mutable field of the session still holds what it held when the call was made, and its maps and channels are new and empty.", need{"R10", 8}, need{"first", 3})
	reg("R15", "Rule: at every SETUP over a new connection the announced channel is twice the number of the stream, the control channel one more, and the parser table and the media table were last written under the same number; a frame is delivered under the channel number its packet came with, and a packet on a channel without a parser is not delivered (media model).", need{"setups", 1})
}

const sessExpl = "Abstract interpretation of every exported method of the RTSP session (all paths, all states it can be called in, loops by fixpoint) with symbolic strings and linear integer constraints; the connection, the server's responses, the description and the URL are arbitrary. "

var sessAssume = []string{
	"callbacks given by the application do not call back into the session",
	"the methods of tcpnetwork.Connection do not write fields of the session (they cannot reach it)",
	"the sequence counter stays below 2^40",
	"free text taken from the URL, the options and the server's responses (URI, user name, realm, nonce, session identifier, extra SETUP headers) holds no line breaks of its own",
}
