package vk

import (
	"encoding/json"
	"fmt"
)

type schedReport struct {
	Scenarios []struct {
		Name       string           `json:"name"`
		Bound      int              `json:"deviation_bound"`
		Variants   int              `json:"variants"`
		Executions int64            `json:"schedules"`
		Points     int64            `json:"choice_points"`
		Steps      int64            `json:"steps"`
		MaxPoints  int              `json:"max_choice_points"`
		Nontrivial int64            `json:"nontrivial"`
		Outcomes   map[string]int64 `json:"outcomes"`
		Complete   bool             `json:"complete"`
		Truncated  int64            `json:"truncated"`
		Diverged   int64            `json:"diverged"`
	} `json:"scenarios"`
	Violations []struct {
		Scenario string   `json:"scenario"`
		Variant  int      `json:"variant"`
		Key      string   `json:"key"`
		Detail   string   `json:"detail"`
		Schedule any      `json:"schedule"`
		Count    int64    `json:"count"`
		Trace    []string `json:"trace"`
	} `json:"violations"`
}

// Sched merges the result of a schedule exploration (vsched.Explore) into the
// run: schedules count as traces of the real code, scheduling steps as
// transitions, choice points as states.
func (c *C) Sched(rep any, err error) {
	if err != nil {
		c.Fail("crash", "a schedule exploration worker died: "+err.Error(), nil)
		return
	}
	b, _ := json.Marshal(rep)
	var r schedReport
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	for _, s := range r.Scenarios {
		c.States.Add(s.Points)
		c.Transitions.Add(s.Steps)
		c.Traces.Add(s.Executions)
		c.Evals.Add(s.Executions)
		c.Nontrivial.Add(s.Nontrivial)
		for o, n := range s.Outcomes {
			c.mu.Lock()
			c.outcomes[s.Name+": "+o] += n
			c.mu.Unlock()
		}
		c.Part("scenario %s (%d variants): all schedules with at most %d deviations: %d schedules, %d choice points, at most %d per schedule, %d outcomes, complete=%v",
			s.Name, s.Variants, s.Bound, s.Executions, s.Points, s.MaxPoints, len(s.Outcomes), s.Complete)
		if !s.Complete {
			c.Partial("scenario %s: %d schedules within the time, bound %d not exhausted", s.Name, s.Executions, s.Bound)
		}
		if s.Diverged > 0 {
			c.Partial("scenario %s: %d schedules could not be replayed exactly", s.Name, s.Diverged)
		}
		c.Sample(map[string]any{"scenario": s.Name, "schedules": s.Executions, "outcomes": s.Outcomes})
	}
	for _, v := range r.Violations {
		c.Fail(v.Scenario+"/"+v.Key, fmt.Sprintf("scenario %s: %s (%d schedules; replay VSCHED_REPLAY='%s#%d@%s')", v.Scenario, v.Detail, v.Count, v.Scenario, v.Variant, js(v.Schedule)),
			map[string]any{"scenario": v.Scenario, "variant": v.Variant, "schedule": v.Schedule, "trace": v.Trace})
	}
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }
