"""Reference behaviour of ababe.mlearn.arrange (analysed, never run)."""
import ababe.mlearn.dsutils as dsutils


def random_walk_arrange(problem):
    start = problem.get_start_position()
    path = [start]
    frontier = dsutils.RandomPopSet()
    for pos in problem.get_neighbors(start):
        frontier.push(pos)
    while not problem.is_goal(len(path)):
        current = frontier.random_pop()
        path.append(current)
        for pos in problem.get_neighbors(current):
            if pos not in path:
                frontier.push(pos)
    return path
