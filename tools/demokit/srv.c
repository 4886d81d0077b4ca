/* A small program that uses the library: srv ROOT PORT */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
#include "ws.h"
#include "router.h"
#include "http_utils.h"
#include "log.h"
char *REDIR_PATHS[] = {""};
static char dir[300];

static void put(char *o, char *k, char *v)
{
  sprintf(o + strlen(o), "%s=[%s]\n", k, v ? v : "(null)");
}
static void echo(api_request *req)
{
  size_t n = 65536 + 2 * strlen(req->form);
  char *o = calloc(1, n);
  put(o, "method", req->method);
  put(o, "path", req->path);
  put(o, "query", req->query_string);
  put(o, "form", req->form);
  put(o, "session", req->session);
  put(o, "ip", req->IP);
  put(o, "url", req->url);
  put(o, "ctype", req->content_type);
  for (int i = 0; i < req->n_headers; i++)
  {
    put(o, req->headers[i].name, req->headers[i].value);
  }
  return_json(req, o);
  free(o);
}
/* stays in progress until the file <query> exists in the scratch folder; tells so by creating <query>.in */
static void slow(api_request *req)
{
  char p[600], q[620];
  struct stat st;
  snprintf(p, sizeof p, "%s/%s", dir, req->query_string);
  snprintf(q, sizeof q, "%s.in", p);
  fclose(fopen(q, "w"));
  for (int i = 0; i < 2000 && stat(p, &st); i++)
    usleep(5000);
  return_json(req, "{\"slow\":1}");
}
static void count(api_request *req)
{
  char p[600];
  snprintf(p, sizeof p, "%s/handled", dir);
  FILE *f = fopen(p, "a");
  fprintf(f, "%s\n", req->form);
  fclose(f);
  return_json(req, "{}");
}
static bool token(api_request *req)
{
  char *t = http_get_header(req, "X-Token");
  if (!strcmp(t, "yes"))
    return true;
  not_authenticated(req);
  return false;
}
static bool yes(api_request *req) { return true; }
static void err(api_request *req)
{
  wayuu_error_t *e = new_error_with_values("E1", req->query_string);
  bad_request_with_error(req, e);
  free(e);
}
static void stream(api_request *req)
{
  char p[600];
  snprintf(p, sizeof p, "%s/stream", dir);
  FILE *f = fopen(p, "rb");
  return_json_stream(req, 200, f);
  fclose(f);
}
int main(int c, char **v)
{
  strcpy(dir, v[1]);
  snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s/root", v[1]);
  snprintf(WAYUU_STATIC_ROOT, 2 * ROOT_PATH_MAX, "%s/root/www", v[1]);
  strcpy(WWW_INDEX, "/index.html");
  strcpy(FAVICON_URL, "/favicon.ico");
  WAYUU_SSL_ON = c > 3;
  signal(SIGPIPE, SIG_IGN);
  router_init();
  char *ms[] = {"GET", "POST", "PUT", "DELETE"};
  for (int i = 0; i < 4; i++)
  {
    char t[100];
    sprintf(t, "%s:/echo", ms[i]);
    router_add_route(strdup(t), echo, NULL);
    sprintf(t, "%s:/e/{id}", ms[i]);
    router_add_route(strdup(t), echo, NULL);
    sprintf(t, "%s:/count", ms[i]);
    router_add_route(strdup(t), count, NULL);
    sprintf(t, "%s:/secret", ms[i]);
    router_add_route(strdup(t), count, token);
    sprintf(t, "%s:/s/{id}", ms[i]);
    router_add_route(strdup(t), count, token);
    sprintf(t, "%s:/open", ms[i]);
    router_add_route(strdup(t), count, yes);
  }
  router_add_route("GET:/slow", slow, NULL);
  router_add_route("GET:/err", err, NULL);
  router_add_route("GET:/stream", stream, NULL);
  router_add_route("GET:/o/{id}", echo, NULL);
  router_add_route("GET:/o/p/{name}", echo, NULL);
  ws_launch(atoi(v[2]), "127.0.0.1", NULL);
  return 0;
}
