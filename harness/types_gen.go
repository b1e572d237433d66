package main

var values = map[string]func() interface{}{}

const (
	withoutTags = false
	inPlace     = false
	namePrefix  = ""
)
