echo 'foo'->{s -> s .. ' bar' }
