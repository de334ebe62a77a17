from collections import deque


class Deck(deque):
    def push(self, elem):
        if elem is not None:
            self.append(elem)

    def pull(self, emptive=False):
        try:
            return self.popleft()
        except IndexError:
            if not emptive:
                raise
            return None

    def __repr__(self):
        return f"Deck({list(self)!r})"
