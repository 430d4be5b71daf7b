// Package parser is a stand-in for vimagination.zapto.org/parser v1.0.0.
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType represents the type of token being read.
type TokenType int

// Constants TokenType (-ve is terminating).
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Token represents data parsed from the stream.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc is the type that the worker types implement in order to be used by
// the Tokeniser.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)

// Tokeniser is a state machine to generate tokens from an input.
type Tokeniser struct {
	src   string
	start int
	pos   int
	Err   error
	state TokenFunc
}

// NewStringTokeniser returns a Tokeniser which uses a string.
func NewStringTokeniser(str string) Tokeniser { return Tokeniser{src: str} }

// NewByteTokeniser returns a Tokeniser which uses a byte slice.
func NewByteTokeniser(data []byte) Tokeniser { return Tokeniser{src: string(data)} }

// GetToken runs the state machine and retrieves a single token and possible an
// error.
func (t *Tokeniser) GetToken() (Token, error) {
	tk := t.get()
	if errors.Is(t.Err, io.EOF) {
		if tk.Type == TokenError {
			return tk, io.ErrUnexpectedEOF
		}

		return tk, nil
	}

	return tk, t.Err
}

func (t *Tokeniser) get() Token {
	if t.Err != nil {
		if errors.Is(t.Err, io.EOF) {
			return Token{Type: TokenDone}
		}

		return Token{Type: TokenError, Data: t.Err.Error()}
	}

	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)

	if tk.Type == TokenError {
		if errors.Is(t.Err, io.EOF) {
			t.Err = io.ErrUnexpectedEOF
		}
	}

	return tk
}

// TokeniserState allows the internal state of the Tokeniser to be set.
func (t *Tokeniser) TokeniserState(tf TokenFunc) { t.state = tf }

func (t *Tokeniser) next() (rune, int) {
	if t.pos >= len(t.src) {
		return -1, 0
	}

	return utf8.DecodeRuneInString(t.src[t.pos:])
}

// Peek returns the next rune without advancing the read position.
func (t *Tokeniser) Peek() rune {
	r, _ := t.next()

	return r
}

// Next returns the next rune and advances the read position.
func (t *Tokeniser) Next() rune {
	r, n := t.next()
	t.pos += n

	return r
}

// Get returns a string of everything that has been read so far and resets the
// string for the next round of parsing.
func (t *Tokeniser) Get() string {
	s := t.src[t.start:t.pos]
	t.start = t.pos

	return s
}

// Len returns the number of bytes that has been read since the last Get.
func (t *Tokeniser) Len() int { return t.pos - t.start }

// Accept returns true if the next character to be read is contained within the
// given string, advancing the read position.
func (t *Tokeniser) Accept(chars string) bool {
	r, n := t.next()
	if n == 0 || !strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// AcceptRun reads from the string as long as the read character is in the given
// string, returning the rune that stopped the run.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for t.Accept(chars) {
	}

	return t.Peek()
}

// AcceptString attempts to accept each character from the given string, in
// order, returning the number of characters accepted.
func (t *Tokeniser) AcceptString(str string, caseInsensitive bool) int {
	for n, r := range str {
		p, l := t.next()
		if l == 0 || p != r && !(caseInsensitive && strings.EqualFold(string(p), string(r))) {
			return n
		}

		t.pos += l
	}

	return len(str)
}

// AcceptWord attempts to parse one of the words provided in the given slice.
func (t *Tokeniser) AcceptWord(words []string, caseInsensitive bool) string {
	for _, w := range words {
		p := t.pos

		if t.AcceptString(w, caseInsensitive) == len(w) {
			return t.src[p:t.pos]
		}

		t.pos = p
	}

	return ""
}

// Except returns true if the next character to be read is not contained within
// the given string, advancing the read position.
func (t *Tokeniser) Except(chars string) bool {
	r, n := t.next()
	if n == 0 || strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// ExceptRun reads from the string as long as the read character is not in the
// given string, returning the rune that stopped the run.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for t.Except(chars) {
	}

	return t.Peek()
}

// Reset restores the state to after the last Get.
func (t *Tokeniser) Reset() { t.pos = t.start }

// Done is a TokenFunc that is used to indicate that there are no more tokens to
// parse.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error represents an error state for the parser.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// Return emits a token with the data read so far, moving on to the given state.
func (t *Tokeniser) Return(typ TokenType, fn TokenFunc) (Token, TokenFunc) {
	if fn == nil {
		fn = (*Tokeniser).Done
	}

	return Token{Type: typ, Data: t.Get()}, fn
}

// ReturnError sets the error and returns the error state.
func (t *Tokeniser) ReturnError(err error) (Token, TokenFunc) {
	t.Err = err

	return t.Error()
}

// Parser is a type used to get tokens or phrases (collection of tokens) from an
// input.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
	peek   Token
}

// New creates a new Parser from the given Tokeniser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

// Peek takes a look at the upcoming Token and returns it.
func (p *Parser) Peek() Token {
	if !p.peeked {
		p.peek = p.Tokeniser.get()
		p.peeked = true
	}

	return p.peek
}

func (p *Parser) advance() {
	p.tokens = append(p.tokens, p.Peek())
	p.peeked = false
}

// Accept will accept a token with one of the given types.
func (p *Parser) Accept(types ...TokenType) bool {
	tt := p.Peek().Type

	for _, t := range types {
		if t == tt {
			p.advance()

			return true
		}
	}

	return false
}

// AcceptToken will accept a token matching the one provided exactly.
func (p *Parser) AcceptToken(tk Token) bool {
	if p.Peek() == tk {
		p.advance()

		return true
	}

	return false
}

// AcceptRun will keep Accepting tokens as long as they match one of the given
// types, returning the type of the token that stopped the run.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for p.Accept(types...) {
	}

	return p.Peek().Type
}

// Except will Accept a token that is not one of the types given.
func (p *Parser) Except(types ...TokenType) bool {
	tt := p.Peek().Type
	if tt < 0 {
		return false
	}

	for _, t := range types {
		if t == tt {
			return false
		}
	}

	p.advance()

	return true
}

// ExceptRun will keep Accepting tokens as long as they do not match one of the
// given types.
func (p *Parser) ExceptRun(types ...TokenType) TokenType {
	for p.Except(types...) {
	}

	return p.Peek().Type
}

// Get retrieves a slice of the Tokens that have been read so far.
func (p *Parser) Get() []Token {
	t := p.tokens
	p.tokens = nil

	return t
}

// Len returns how many tokens have been read.
func (p *Parser) Len() int { return len(p.tokens) }
