// Package proto stands in for the protocol buffer library, which is not installed here.
package proto

import "google.golang.org/protobuf/reflect/protoreflect"

type Message = protoreflect.ProtoMessage
