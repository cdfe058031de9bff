package context

type Context interface{ Err() error }
