"""Static analyser for django-treebeard (see DESIGN.md)."""
