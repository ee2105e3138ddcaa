// Package jsoniter is a type-level stand-in for github.com/json-iterator/go, used by the
// checker's loader only.
package jsoniter

import "io"

type Iterator struct {
	Error error
}

func (iter *Iterator) ReadVal(obj interface{}) {}

type Stream struct {
	Error error
}

func (stream *Stream) WriteVal(val interface{}) {}
func (stream *Stream) Flush() error              { return nil }

type API interface {
	BorrowIterator(data []byte) *Iterator
	ReturnIterator(iter *Iterator)
	BorrowStream(writer io.Writer) *Stream
	ReturnStream(stream *Stream)
	Marshal(v interface{}) ([]byte, error)
	Unmarshal(data []byte, v interface{}) error
}

var (
	ConfigDefault                       API
	ConfigCompatibleWithStandardLibrary API
	ConfigFastest                       API
)

func Marshal(v interface{}) ([]byte, error)      { return nil, nil }
func Unmarshal(data []byte, v interface{}) error { return nil }
