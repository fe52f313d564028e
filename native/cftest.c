/* cftest CONFIG [g]: what the library makes of a configuration; queries on stdin
 *   S key | Z zone | B zone net node | X path | D unix path | U dos path | P NAME */
#include "fidogate.h"

#define NAMES X(ACL,acl) X(ALIASES,aliases) X(AREAS,areas) X(BINDIR,bindir) X(BTBASEDIR,btbasedir) \
 X(CHARSETMAP,charsetmap) X(CONFIGDIR,configdir) X(DBC_HISTORY,dbc_history) X(FTNACL,ftnacl) \
 X(HISTORY,history) X(HOSTS,hosts) X(INBOUND,inbound) X(LIBEXECDIR,libexecdir) X(LOCKDIR,lockdir) \
 X(LOGDIR,logdir) X(LOGFILE,logfile) X(NETMAILDIR,netmaildir) X(OUTPKT,outpkt) \
 X(OUTPKT_MAIL,outpkt_mail) X(OUTPKT_NEWS,outpkt_news) X(OUTRFC_MAIL,outrfc_mail) \
 X(OUTRFC_NEWS,outrfc_news) X(PACKING,packing) X(PASSWD,passwd) X(PINBOUND,pinbound) X(ROUTING,routing) \
 X(SEQ_MAIL,seq_mail) X(SEQ_MSGID,seq_msgid) X(SEQ_NEWS,seq_news) X(SEQ_PACK,seq_pack) X(SEQ_PKT,seq_pkt) \
 X(SEQ_SPLIT,seq_split) X(SEQ_TICK,seq_tick) X(SEQ_TOSS,seq_toss) X(SPOOLDIR,spooldir) X(SPYES,spyes) \
 X(TICK_HOLD,tick_hold) X(TIC_HISTORY,tic_history) X(TOSS_BAD,toss_bad) X(TOSS_PACK,toss_pack) \
 X(TOSS_ROUTE,toss_route) X(TOSS_TOSS,toss_toss) X(UPLINKS,uplinks) X(UUINBOUND,uuinbound) X(VARDIR,vardir)

static struct { const char *n; char *(*f)(void); } tab[] = {
#define X(a,b) { #a, cf_p_##b },
NAMES
#undef X
};

static char line[70000];

static void node(const char *t, Node *n)
{
    printf("%s %d:%d/%d.%d\n", t, n->zone, n->net, n->node, n->point);
}

static const char *nn(const char *s) { return s ? s : "(none)"; }

int main(int argc, char **argv)
{
    Node *p, g, n, a, u;
    char *s, buf[MAXPATH];
    int i, r;

    log_program("cftest");
    cf_initialize();
    cf_read_config_file(argv[1]);
    if (argc > 2) cf_i_am_a_gateway_prog();
    printf("hostname %s\ndomain %s\nhostsdomain %s\nfqdn %s\nzone %d\ndefzone %d\n", cf_hostname(),
           cf_domainname(), cf_hostsdomain(), cf_fqdn(), cf_zone(), cf_defzone());
    node("main", cf_main_addr());
    node("curr", cf_addr());
    node("uplink", cf_uplink());
    g = cf_gateway();
    node("gateway", &g);
    for (p = cf_addr_trav(TRUE); p; p = cf_addr_trav(FALSE)) node("addr", p);
    for (s = cf_zones_trav(TRUE); s; s = cf_zones_trav(FALSE)) printf("dom %s\n", s);
    for (i = 0; i < 40; i++) if ((s = cf_out_get(i))) printf("out %s\n", s);
    printf("dos %d\n", cf_dos() != 0);
    while (fgets(line, sizeof line, stdin)) {
        char *q = line + 2;
        line[strcspn(line, "\n")] = 0;
        switch (*line) {
        case 'S':
            for (s = cf_get_string(q, TRUE); s; s = cf_get_string(q, FALSE)) printf("S %s=%s\n", q, s);
            break;
        case 'Z':
            i = atoi(q);
            printf("Z %d %s %s %s %d\n", i, nn(cf_zones_inet_domain(i)), nn(cf_zones_ftn_domain(i)),
                   nn(cf_zones_out(i)), cf_zones_check(i) != 0);
            break;
        case 'B':
            memset(&n, 0, sizeof n); memset(&a, 0, sizeof a); memset(&u, 0, sizeof u);
            sscanf(q, "%d %d %d", &n.zone, &n.net, &n.node);
            r = cf_get_best(&n, &a, &u, &i);
            printf("B %s %d %d\n", q, r, r < 0 ? -1 : i);
            if (r >= 0) { node("aka", &a); node("up", &u); }
            break;
        case 'X':
            printf("X %s\n", str_expand_name(buf, sizeof buf, q));
            break;
        case 'D':
            printf("D %s\n", nn(cf_dos_xlate(q)));
            break;
        case 'U':
            printf("U %s\n", nn(cf_unix_xlate(q)));
            break;
        case 'P':
            for (i = 0; i < sizeof tab / sizeof *tab; i++)
                if (!strcmp(q, tab[i].n)) printf("P %s %s\n", q, tab[i].f());
            break;
        case 'L':
            fglog("%s", q);
            break;
        }
    }
    return 0;
}
