// Package discord stands in for the client of the chat service: events come
// from file descriptor 3, what the bot does goes to file descriptor 4.
package discord

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"os"
	"sync"

	"github.com/velour/chat"
)

// Event is an event as the driver sends it.
type Event struct {
	C, T, Nick, Name, ID string
	Text                 []byte
	From, Reply          bool
}

// Done is something that the bot did.
type Done struct {
	T, C, G string
	Text    []byte
}

type Client struct {
	chans map[string]*Channel
	mu    sync.Mutex
	enc   *json.Encoder
}

type Channel struct {
	cl    *Client
	name  string
	guild string
	mu    sync.Mutex
	cond  *sync.Cond
	queue []chat.Event
}

func (cl *Client) did(d Done) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	cl.enc.Encode(d)
}

func Dial(ctx context.Context, token string) (*Client, error) {
	cl := &Client{chans: make(map[string]*Channel), enc: json.NewEncoder(os.NewFile(4, "out"))}
	if token == "" {
		return nil, errors.New("no token")
	}
	cl.did(Done{T: "dial", G: token})
	go cl.read()
	return cl, nil
}

func (cl *Client) channel(name string) *Channel {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	ch := cl.chans[name]
	if ch == nil {
		ch = &Channel{cl: cl, name: name}
		ch.cond = sync.NewCond(&ch.mu)
		cl.chans[name] = ch
	}
	return ch
}

func (cl *Client) read() {
	sc := bufio.NewScanner(os.NewFile(3, "in"))
	sc.Buffer(make([]byte, 1<<16), 1<<26)
	for sc.Scan() {
		var e Event
		if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
			panic(err)
		}
		ch := cl.channel(e.C)
		u := &chat.User{ID: chat.UserID("id-" + e.Nick), Nick: e.Nick, FullName: e.Name, DisplayName: e.Name, Channel: ch}
		m := chat.Message{ID: chat.MessageID(e.ID), Text: string(e.Text)}
		if e.From {
			m.From = u
		}
		if e.Reply {
			m.ReplyTo = &chat.Message{ID: "r", From: u, Text: ".miu de"}
		}
		var ev chat.Event
		switch e.T {
		case "msg":
			ev = m
		case "edit":
			m.From = u
			ev = chat.Edit{OrigID: "o", New: m}
		case "delete":
			ev = chat.Delete{ID: m.ID, Channel: ch}
		case "join":
			ev = chat.Join{Who: *u}
		case "leave":
			ev = chat.Leave{Who: *u}
		case "rename":
			ev = chat.Rename{From: *u, To: *u}
		default:
			panic("event " + e.T)
		}
		ch.mu.Lock()
		ch.queue = append(ch.queue, ev)
		ch.cond.Broadcast()
		ch.mu.Unlock()
	}
}

func (cl *Client) Close(ctx context.Context) error { return nil }

func (cl *Client) Join(ctx context.Context, guild, name string) (chat.Channel, error) {
	ch := cl.channel(name)
	ch.guild = guild
	cl.did(Done{T: "join", C: name, G: guild})
	return ch, nil
}

func (ch *Channel) Name() string        { return ch.name }
func (ch *Channel) ServiceName() string { return "Discord " + ch.guild + " " + ch.name }

func (ch *Channel) Receive(ctx context.Context) (chat.Event, error) {
	ch.cl.did(Done{T: "recv", C: ch.name})
	ch.mu.Lock()
	defer ch.mu.Unlock()
	for len(ch.queue) == 0 {
		ch.cond.Wait()
	}
	ev := ch.queue[0]
	ch.queue = ch.queue[1:]
	ch.cl.did(Done{T: "got", C: ch.name})
	return ev, nil
}

func (ch *Channel) Send(ctx context.Context, m chat.Message) (chat.Message, error) {
	ch.cl.did(Done{T: "say", C: ch.name, Text: []byte(m.Text)})
	m.ID = "sent"
	return m, nil
}

func (ch *Channel) Delete(ctx context.Context, m chat.Message) error {
	ch.cl.did(Done{T: "del", C: ch.name})
	return nil
}

func (ch *Channel) Edit(ctx context.Context, m chat.Message) (chat.Message, error) {
	ch.cl.did(Done{T: "edit", C: ch.name, Text: []byte(m.Text)})
	return m, nil
}
