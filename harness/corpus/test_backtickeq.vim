edit `="abc" . "def"`
