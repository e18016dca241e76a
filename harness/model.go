package harness

// The reference model of a document.  It is what a document says, independent
// of how it is spelled.  Everything is in document order.

type KY struct {
	Key string
	Val *Y
}

type KS struct {
	Key, Val string
}

type Ann struct {
	Name   string
	Fields []KY `json:",omitempty"`
}

type Ex struct {
	DisplayName *string `json:",omitempty"`
	Description *string `json:",omitempty"`
	Value       *Y      `json:",omitempty"`
	Lenient     bool    `json:",omitempty"`
	Anns        []Ann   `json:",omitempty"`
	Extra       []KY    `json:",omitempty"`
}

type NamedEx struct {
	Name string
	Ex   *Ex
}

type Xml struct {
	Attribute *bool   `json:",omitempty"`
	Wrapped   *bool   `json:",omitempty"`
	Name      *string `json:",omitempty"`
	Namespace *string `json:",omitempty"`
	Prefix    *string `json:",omitempty"`
	Extra     []KY    `json:",omitempty"`
}

type Named struct {
	Name string
	Type *TD
}

type Facet struct {
	Name  string
	Types []Named `json:",omitempty"`
}

// TD is a data type declaration.  A nil pointer means that the facet has its
// default, however that was spelled.
type TD struct {
	Kind        string
	Schema      string
	DisplayName *string   `json:",omitempty"`
	Description *string   `json:",omitempty"`
	Default     *Y        `json:",omitempty"`
	Example     *Ex       `json:",omitempty"`
	Examples    []NamedEx `json:",omitempty"`
	Enum        []*Y      `json:",omitempty"`
	Optional    bool      `json:",omitempty"`
	Anns        []Ann     `json:",omitempty"`
	Facets      []Facet   `json:",omitempty"`
	XML         *Xml      `json:",omitempty"`
	Extra       []KY      `json:",omitempty"`

	Pattern     *string  `json:",omitempty"`
	MinLength   *uint64  `json:",omitempty"`
	MaxLength   *uint64  `json:",omitempty"`
	Minimum     *string  `json:",omitempty"`
	Maximum     *string  `json:",omitempty"`
	MultipleOf  *string  `json:",omitempty"`
	Format      *string  `json:",omitempty"`
	UniqueItems bool     `json:",omitempty"`
	MinItems    *uint64  `json:",omitempty"`
	MaxItems    *uint64  `json:",omitempty"`
	Items       *TD      `json:",omitempty"`
	Properties  []Named  `json:",omitempty"`
	MinProps    *uint64  `json:",omitempty"`
	MaxProps    *uint64  `json:",omitempty"`
	Closed      bool     `json:",omitempty"`
	Discrim     *string  `json:",omitempty"`
	DiscrimVal  *Y       `json:",omitempty"`
	FileTypes   []string `json:",omitempty"`
}

type DocEntry struct {
	Title   string
	Content string
	Include bool `json:",omitempty"` // the content is an !include
	Extra   []KY `json:",omitempty"`
}

// Doc is an API specification (Lib false) or a library (Lib true).
type Doc struct {
	Lib bool `json:",omitempty"`

	Usage *string `json:",omitempty"`

	Title         string     `json:",omitempty"`
	Version       *string    `json:",omitempty"`
	BaseURI       *string    `json:",omitempty"`
	Description   *string    `json:",omitempty"`
	BaseURIParams []KY       `json:",omitempty"`
	Protocols     []string   `json:",omitempty"`
	MediaTypes    []string   `json:",omitempty"`
	SecuredBy     []string   `json:",omitempty"`
	Docs          []DocEntry `json:",omitempty"`
	Resources     []KY       `json:",omitempty"`

	Types           []Named `json:",omitempty"`
	Traits          []KY    `json:",omitempty"`
	ResourceTypes   []KY    `json:",omitempty"`
	AnnotationTypes []KY    `json:",omitempty"`
	SecuritySchemes []KY    `json:",omitempty"`
	Anns            []Ann   `json:",omitempty"`
	Uses            []KS    `json:",omitempty"`
	Extra           []KY    `json:",omitempty"`
}

// The kinds of a type declaration, as reported by the library.
const (
	kAny    = "any"
	kArray  = "array"
	kBool   = "boolean"
	kDate   = "date-only"
	kTime   = "time-only"
	kDtOnly = "datetime-only"
	kDt     = "datetime"
	kFile   = "file"
	kInt    = "integer"
	kNil    = "nil"
	kNum    = "number"
	kObj    = "object"
	kStr    = "string"
	kUnion  = "union"
	kCustom = "custom"
	kInc    = "include"
)

var builtinKinds = []string{kAny, kArray, kBool, kDate, kTime, kDtOnly, kDt,
	kFile, kInt, kNil, kNum, kObj, kStr}

var extKinds = []string{kAny, kArray, kBool, kDate, kTime, kDtOnly, kDt, kFile,
	kInt, kNum, kObj, kStr, kUnion, kCustom}

var allKinds = append(append([]string{}, extKinds...), kNil, kInc)

func isExt(kind string) bool { return kind != kNil && kind != kInc }

// vClass is the class of values of the default, enum and example facets.
func vClass(kind string) string {
	switch kind {
	case kBool:
		return "bool"
	case kDate, kTime, kDtOnly, kDt, kStr:
		return "string"
	case kInt:
		return "int"
	case kNum:
		return "float"
	case kArray:
		return "list"
	}
	return "any"
}

func isDateKind(k string) bool {
	return k == kDate || k == kTime || k == kDtOnly || k == kDt
}

var baseKeys = []string{"type", "schema", "required"}
var extKeys = []string{"displayName", "description", "facets", "xml",
	"default", "example", "examples", "enum"}
var kindKeys = map[string][]string{
	kArray: {"uniqueItems", "minItems", "maxItems", "items"},
	kDt:    {"format"},
	kFile:  {"fileTypes", "minLength", "maxLength"},
	kInt:   {"minimum", "maximum", "format", "multipleOf"},
	kNum:   {"minimum", "maximum", "format", "multipleOf"},
	kObj: {"properties", "minProperties", "maxProperties",
		"additionalProperties", "discriminator", "discriminatorValue"},
	kStr: {"pattern", "minLength", "maxLength"},
}

func knownTypeKeys(kind string) map[string]bool {
	out := map[string]bool{}
	for _, k := range baseKeys {
		out[k] = true
	}
	if isExt(kind) {
		for _, k := range extKeys {
			out[k] = true
		}
	}
	for _, k := range kindKeys[kind] {
		out[k] = true
	}
	return out
}

func set(keys ...string) map[string]bool {
	out := map[string]bool{}
	for _, k := range keys {
		out[k] = true
	}
	return out
}

var apiKeys = set("title", "version", "baseUri", "description", "protocols",
	"mediaType", "documentation", "securedBy", "uses", "securitySchemes",
	"baseUriParameters", "traits", "annotationTypes", "resourceTypes", "types",
	"schemas")
var libKeys = set("annotationTypes", "resourceTypes", "types", "schemas",
	"traits", "uses", "usage", "securitySchemes")
var exKeys = set("displayName", "description", "strict", "value")
var docKeys = set("title", "content")
var xmlKeys = set("attribute", "wrapped", "name", "namespace", "prefix")

const (
	fileMaxLen   = uint64(2147483647)
	arrayMaxItem = uint64(2147483647)
)
