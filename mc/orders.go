package mc

import (
	"fmt"

	"verif/maporder"
)

// orderJob runs a job with the loops over Go maps in a given order.
type orderJob struct {
	Job
	policy int
}

func (j *orderJob) JobName() string {
	return fmt.Sprintf("%s, map order %d", j.Job.JobName(), j.policy)
}

func (j *orderJob) under(c *Ctx, f func() *Failure) *Failure {
	before, n := maporder.Policy, maporder.Loops
	maporder.Policy = j.policy
	defer func() { maporder.Policy = before }()
	r := f()
	c.Stats.Add("map_loops_controlled", maporder.Loops-n)
	return r
}

func (j *orderJob) Run(c *Ctx) *Failure {
	return j.under(c, func() *Failure { return j.Job.Run(c) })
}

func (j *orderJob) Replay(c *Ctx, f *Failure) *Failure {
	return j.under(c, func() *Failure { return j.Job.Replay(c, f) })
}

// WithOrders runs every job once for each order of loops over Go maps.
func WithOrders(policies []int, jobs ...[]Job) (r []Job) {
	for _, p := range policies {
		for _, js := range jobs {
			for _, j := range js {
				r = append(r, &orderJob{j, p})
			}
		}
	}
	return
}
