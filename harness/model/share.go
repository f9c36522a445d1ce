package model

// ShareTree stores equal parts of a tree once (empty -1, record below -1, node from 0).
// Children have higher numbers than their parents, in the result the root is still 0.
func ShareTree(nodes [][2]int) [][2]int {
	same := make([]int, len(nodes))
	first := map[[2]int]int{}
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		for j, v := range n {
			if v >= 0 {
				n[j] = same[v]
			}
		}
		if k, ok := first[n]; ok && i > 0 {
			same[i] = k
			continue
		}
		first[n] = i
		same[i] = i
		nodes[i] = n
	}
	num := map[int]int{0: 0}
	order := []int{0}
	for at := 0; at < len(order); at++ {
		for _, v := range nodes[order[at]] {
			if v >= 0 {
				if _, ok := num[v]; !ok {
					num[v] = len(order)
					order = append(order, v)
				}
			}
		}
	}
	out := make([][2]int, len(order))
	for at, i := range order {
		for j, v := range nodes[i] {
			if v >= 0 {
				v = num[v]
			}
			out[at][j] = v
		}
	}
	return out
}
