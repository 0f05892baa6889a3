// Package survey is the prompt library with the answers given by the harness.
package survey

import (
	"errors"
	"reflect"
	"strconv"

	"github.com/AlecAivazis/survey/v2"
)

type (
	Confirm     = survey.Confirm
	MultiSelect = survey.MultiSelect
	Select      = survey.Select
	Input       = survey.Input
	Password    = survey.Password
	Multiline   = survey.Multiline
	Editor      = survey.Editor
	Question    = survey.Question
	Prompt      = survey.Prompt
	AskOpt      = survey.AskOpt
	Validator   = survey.Validator
	Transformer = survey.Transformer
	AskOptions  = survey.AskOptions
	IconSet     = survey.IconSet
)

var MultilineQuestionTemplate string

// Answer answers a prompt.
var Answer func(p Prompt, response any) error

// Asked is the name of the question, if it has one.
var Asked string

var ErrNoAnswer = errors.New("no answer")

func AskOne(p Prompt, response any, opts ...AskOpt) error {
	if Answer == nil {
		return ErrNoAnswer
	}
	return Answer(p, response)
}

// Ask asks questions one by one, each again until the answer is valid, and
// writes the answers to the fields of a struct with a tag of their name.
func Ask(qs []*Question, response any, opts ...AskOpt) error {
	for _, q := range qs {
		var answer string
		Asked = q.Name
		for {
			answer = ""
			if err := AskOne(q.Prompt, &answer); err != nil {
				Asked = ""
				return err
			}
			if p, ok := q.Prompt.(*Input); ok && answer == "" {
				answer = p.Default
			}
			if q.Validate == nil || q.Validate(answer) == nil {
				break
			}
		}
		Asked = ""
		switch f := field(response, q.Name).(type) {
		case *string:
			*f = answer
		case *int:
			n, err := strconv.ParseInt(answer, 10, 64)
			if err != nil {
				return err
			}
			*f = int(n)
		default:
			return errors.New("no field for " + q.Name)
		}
	}
	return nil
}

// field is a pointer to the field of a struct that has the tag.
func field(response any, name string) any {
	v := reflect.ValueOf(response).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("survey") == name {
			return v.Field(i).Addr().Interface()
		}
	}
	return nil
}

func none(*AskOptions) error { return nil }

func Required(val any) error                     { return nil }
func WithValidator(v Validator) AskOpt           { return none }
func WithKeepFilter(b bool) AskOpt               { return none }
func WithPageSize(n int) AskOpt                  { return none }
func WithRemoveSelectAll() AskOpt                { return none }
func WithRemoveSelectNone() AskOpt               { return none }
func WithShowCursor(b bool) AskOpt               { return none }
func MinLength(n int) Validator                  { return func(any) error { return nil } }
func MaxLength(n int) Validator                  { return func(any) error { return nil } }
func MinItems(n int) Validator                   { return func(any) error { return nil } }
func ComposeValidators(v ...Validator) Validator { return func(any) error { return nil } }
