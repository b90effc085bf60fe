// Package protoreflect has the part of the reflection interface that the library uses.
package protoreflect

type Name string
type Cardinality int8
type Kind int8

const (
	Optional Cardinality = 1
	Required Cardinality = 2
	Repeated Cardinality = 3
)

const (
	BoolKind    Kind = 8
	EnumKind    Kind = 14
	Int32Kind   Kind = 5
	Int64Kind   Kind = 3
	StringKind  Kind = 9
	BytesKind   Kind = 12
	DoubleKind  Kind = 1
	MessageKind Kind = 11
	GroupKind   Kind = 10
)

type ProtoMessage interface{ ProtoReflect() Message }

type Message interface {
	Descriptor() MessageDescriptor
	Interface() ProtoMessage
	Has(FieldDescriptor) bool
	Get(FieldDescriptor) Value
	NewField(FieldDescriptor) Value
	Clear(FieldDescriptor)
	Set(FieldDescriptor, Value)
	IsValid() bool
}

type MessageDescriptor interface{ Fields() FieldDescriptors }

type FieldDescriptors interface {
	Len() int
	Get(int) FieldDescriptor
	ByName(Name) FieldDescriptor
}

type FieldDescriptor interface {
	Name() Name
	Cardinality() Cardinality
	Kind() Kind
	IsList() bool
	IsMap() bool
	Message() MessageDescriptor
}

type Value interface {
	String() string
	Message() Message
	Interface() any
	Int() int64
	IsValid() bool
}
