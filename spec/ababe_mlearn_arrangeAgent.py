"""Reference behaviour of ababe.mlearn.arrangeAgent (analysed, never run)."""
from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
from ababe.stru.scaffold import SitesGrid, CStru
from ababe.stru.element import GhostSpecie


class Boron2dArrangeProblem:
    def __init__(self, goal_num):
        self.goal_num = goal_num
        self.delta = 2.1
        self.bg = CStru2d([[2, 0], [1, 1.732058]],
                          SitesGrid2d([[GhostSpecie() for _ in range(goal_num)] for _ in range(goal_num)]))
        self.start_position = self.bg.get_midpoint()

    def get_start_position(self):
        return self.start_position

    def is_goal(self, len_path):
        return len_path == self.goal_num

    def get_neighbors(self, position):
        return self.bg.get_neighbors(position, self.delta)


class FCC3dArrangeProblem:
    def __init__(self, goal_num):
        self.goal_num = goal_num
        self.delta = 2.1
        self.bg = CStru([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
                        SitesGrid([[[GhostSpecie() for _ in range(goal_num)] for _ in range(goal_num)]
                                   for _ in range(goal_num)]))
        self.start_position = self.bg.get_midpoint()

    def get_start_position(self):
        return self.start_position

    def is_goal(self, len_path):
        return len_path == self.goal_num

    def get_neighbors(self, position):
        return self.bg.get_neighbors(position, self.delta)
