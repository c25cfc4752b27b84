package hx

import (
	"context"
	"errors"
	"sync"

	"github.com/cybercryptio/d1-lib/v2/id"
)

// IDP is an identity provider whose answers the harness controls.
type IDP struct {
	mu     sync.Mutex
	Tokens map[string]*id.Identity
	Seen   []string
	Calls  int
	Err    error // what refused tokens are refused with (nil: an error of its own)
}

var errIDP = errors.New("token not accepted")

func NewIDP() *IDP { return &IDP{Tokens: map[string]*id.Identity{}} }

func cloneIdentity(i *id.Identity) id.Identity {
	out := id.Identity{ID: i.ID, Scopes: i.Scopes, Groups: map[string]id.AccessGroup{}}
	for k, g := range i.Groups {
		out.Groups[k] = g
	}
	return out
}

// GetIdentity resolves a token. A refused token comes with an all-powerful identity, which a
// caller that ignores the error would use.
func (p *IDP) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Calls++
	if len(p.Seen) < 1000 {
		p.Seen = append(p.Seen, token)
	}
	i, ok := p.Tokens[token]
	if !ok {
		trap := id.Identity{ID: "trap", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{}}
		for _, j := range p.Tokens {
			trap.ID = j.ID
			for k, g := range j.Groups {
				g.Scopes = id.ScopeAll
				trap.Groups[k] = g
			}
		}
		if p.Err != nil {
			return trap, p.Err
		}
		return trap, errIDP
	}
	return cloneIdentity(i), nil
}
