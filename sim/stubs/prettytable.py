class PrettyTable:
    def __init__(self, *pa, **kwa):
        self.rows = []
        self.field_names = []
        self.align = {}

    def add_row(self, row):
        self.rows.append(row)

    def __str__(self):
        return str(self.rows)
