package harness

import (
	"context"
	"fmt"
	"net"
	"time"

	"github.com/segmentio/kafka-go"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vnet"
)

// libRun is a scenario of the kafka-go client library as a group consumer. It
// runs on the in-memory network and in virtual time, but its goroutines are not
// scheduled by the explorer: the scenarios are enumerated, not the schedules.
type libRun struct {
	n     int // records
	sizes int
	slack int // of the size limit beyond the biggest record
	start int // committed offset at first
	event int // 0 none, 1 new reader, 2 restart and new reader, 3 restart under the reader
	at    int // after this many records
	late  int // 1: the last record is posted when the reader waits
	part  int
}

func (k libRun) value(i int) []byte {
	v := []byte(fmt.Sprintf("%d-", i))
	for len(v) < []int{0, 300, (i * 97) % 400}[k.sizes] {
		v = append(v, byte('a'+i%26))
	}
	return v
}

func (k libRun) reader(m *M) *kafka.Reader {
	d := &kafka.Dialer{Timeout: 5 * time.Second}
	if !plainMode {
		d.DialFunc = func(ctx context.Context, network, address string) (net.Conn, error) {
			c, err := vnet.Connect(m.port)
			if err != nil {
				return nil, err
			}
			return c, nil
		}
	}
	big := 0
	for i := 0; i < k.n; i++ {
		if s := 34 + len(k.value(i)); s > big {
			big = s
		}
	}
	return kafka.NewReader(kafka.ReaderConfig{
		Brokers:     []string{fmt.Sprintf("localhost:%d", m.port)},
		GroupID:     "lib",
		GroupTopics: []string{"t"},
		Dialer:      d,
		MinBytes:    1,
		MaxBytes:    big + 1 + k.slack,
		MaxWait:     100 * time.Millisecond,

		JoinGroupBackoff:      50 * time.Millisecond,
		ReadBackoffMin:        10 * time.Millisecond,
		ReadBackoffMax:        20 * time.Millisecond,
		WatchPartitionChanges: false,
	})
}

func (k libRun) run(e *E) {
	m := e.StartMock()
	post := func(i int) { m.km.ExtendedPost("t", k.part, []byte{}, k.value(i), nil, time.UnixMilli(1000+int64(i))) }
	m.km.CreatePartitionTopics([]string{"t"}, k.part)
	n0 := k.n
	if k.late == 1 && k.n > k.start {
		n0--
	}
	for i := 0; i < n0; i++ {
		post(i)
	}
	if k.start > 0 {
		m.km.SetConsumerGroupOffset("t", k.part, "lib", int64(k.start))
	}
	var r *kafka.Reader
	defer func() {
		if r != nil {
			r.Close()
		}
		m.Stop()
		if !plainMode {
			time.Sleep(15 * time.Second) // the library's goroutines end
		}
	}()
	r = k.reader(m)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	next := k.start   // the record that must come next
	before := k.start // committed at the interruption
	interrupted := false
	event := func() {
		if interrupted || next-k.start != k.at {
			return
		}
		interrupted = true
		switch k.event {
		case 1:
			r.Close()
			r = k.reader(m)
		case 2:
			r.Close()
			m.Restart()
			r = k.reader(m)
		case 3:
			before = next
			m.Restart()
		}
	}
	event()
	for next < k.n {
		if next == n0 && n0 < k.n {
			if !plainMode {
				time.Sleep(150 * time.Millisecond)
			}
			post(n0)
			n0++
		}
		mm, err := r.FetchMessage(ctx)
		if err != nil && k.event == 3 && interrupted && ctx.Err() == nil {
			// the library reports the interruption and goes on
			time.Sleep(5 * time.Millisecond)
			continue
		}
		if err != nil {
			e.Fail("the client library got an error instead of record %d of %d: %v", next, k.n, err)
		}
		if k.event == 3 && interrupted && mm.Offset >= int64(before) && mm.Offset < int64(next) {
			continue // read ahead before the interruption, and again after it
		}
		if mm.Topic != "t" || mm.Partition != k.part || mm.Offset != int64(next) || string(mm.Value) != string(k.value(next)) || mm.Time.UnixMilli() != 1000+int64(next) {
			e.Fail("the client library got %s/%d offset %d value %.40q time %d instead of record %d", mm.Topic, mm.Partition, mm.Offset, mm.Value, mm.Time.UnixMilli(), next)
		}
		for {
			err := r.CommitMessages(ctx, mm)
			if err == nil {
				break
			}
			if k.event != 3 || !interrupted || ctx.Err() != nil {
				e.Fail("the client library cannot commit record %d: %v", next, err)
			}
			time.Sleep(5 * time.Millisecond)
		}
		next++
		event()
	}
	// nothing comes twice
	short, stop := context.WithTimeout(context.Background(), 400*time.Millisecond)
	defer stop()
	if k.event != 3 {
		if mm, err := r.FetchMessage(short); err == nil {
			e.Fail("after all %d records the client library got offset %d value %.40q", k.n, mm.Offset, mm.Value)
		}
	}
	c := m.Dial()
	if got := c.Committed("lib", "t", int32(k.part)); got != int64(k.n) {
		e.Fail("the committed offset is %d after all %d records were committed", got, k.n)
	}
	c.Close()
	e.Op()
}
