# property -> level note (see DESIGN.md)
