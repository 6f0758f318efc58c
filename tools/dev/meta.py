import json
M={
"s06b":("P06","an actor that links to a server after it became operational","the init request is not forgotten once confirmed: a later event carries out the initialization again"),
"s06c":("P06","two plugins that delay initialization, the later one longer than the earlier","a plugin that agreed is asked again"),
"s06d":("P06","a plugin that is not ready, with another one behind it","later plugins are asked although an earlier one is not ready"),
"s07a":("P07","an actor stopped for a normal reason first and for a failure later","a normal first shutdown reason is replaced by a later one"),
"s07b":("P07","an escalating actor stopped with a chain of errors whose root is a normal termination","a normal termination is escalated to the supervisor"),
"s07c":("P07","an actor with autoshutdown_supervisor","the supervisor's reason does not have the actor's reason as its cause"),
"s08a":("P08","a resource acquired while shutting down, after the resources plugin agreed already","the actor finishes shutdown while it holds a resource"),
"s08c":("P08","the same resource acquired an even number of times","an even number of holdings does not count as held"),
"s09a":("P09","two localities with equal request ids and the one who asked first cancels","cancelling a promise cancels somebody else's"),
"s09b":("P09","more than one promise for one name","only the first promise of a name is answered"),
"s09c":("P09","neighbouring promises for one name","the promise after an answered one is skipped"),
"s09d":("P09","deregister one service, register it elsewhere, deregister the first address","deregistering an address removes the name another actor registered meanwhile"),
"s11b":("P11","fail_only policy and a first instance that terminates normally","it is restarted"),
"s11c":("P11","a second termination within the restart period, after the period elapsed for the first instance","the period counts from the first instantiation: restarted too early"),
"s12a":("P12","a client that leaves by itself while the server already asked it to unlink and waits for another one","the unlink request stays pending and its timeout is taken for the answer"),
"s12c":("P12","two unlink requests held back and answered together; the second server is tolerated","the client does not shut down for the first server"),
"s12e":("P12","a second link request of a client whose first one is still pending","the second request is never answered"),
}
import os
if os.path.exists('/tmp/seed/meta2.py'): exec(open('/tmp/seed/meta2.py').read())
json.dump(M,open('/tmp/seed/meta.json','w'))
