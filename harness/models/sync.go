package models

import "sync"

// model:(*sync.Pool).Get
func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// model:(*sync.Pool).Put
func PoolPut(p *sync.Pool, x any) {}
