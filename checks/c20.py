from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the three adapters between a framework (models of the WSGI protocol, of Flask request/Response and of Django '
    'request/HttpResponse) and a dispatcher that gives any response: text or bytes of undetermined content, every status, any headers. What '
    'the dispatcher receives and what the framework gets back are compared with what went in.')
ASSUMPTIONS = ['Flask and Django objects behave as modelled: get_data/data/environ and body/environ of requests, content, status and headers of responses',
               'CONTENT_LENGTH is absent, empty or a numeral']
RULE = 'adapters forward bodies, environments, statuses and headers unchanged'


def scenarios(tier):
    for w in ('digits', 'empty', 'absent'):
        yield Scenario('http', 'wsgi', (w,), rule=RULE)
    for k in ('flask', 'django'):
        yield Scenario('http', 'framework', (k,), rule=RULE)
    for h in ('REQUEST_METHOD', 'SOAPAction', 'soapaction', 'Content-Type', 'X-Forwarded-Proto', 'HTTP_HOST'):
        yield Scenario('http', 'django_environ', (h,), rule=RULE)
